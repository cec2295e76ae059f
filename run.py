#!/opt/venv/bin/python
"""Entry point: run.py Cnn [replay-file]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        # A fixed environment: own byte-code cache, fixed hash seed, no user site.
        import shutil
        import signal
        import subprocess
        import tempfile

        cache = tempfile.mkdtemp(prefix="verif-pyc-")
        env = dict(
            os.environ, VERIF_CHILD="1", PYTHONPYCACHEPREFIX=cache, PYTHONHASHSEED="0",
            PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1",
            OPENBLAS_NUM_THREADS="1",
        )
        py = "/opt/venv/bin/python"
        proc = subprocess.Popen([py, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda n, f: proc.send_signal(n))
        try:
            code = proc.wait()
        finally:
            shutil.rmtree(cache, ignore_errors=True)
        sys.exit(code if code >= 0 else 128 - code)

    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.path.insert(0, HERE)
    import faulthandler
    import importlib
    import signal

    faulthandler.enable()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(143))
    from vlib.base import Inconclusive

    name = sys.argv[1].lower()
    mod = importlib.import_module(f"checks.{name}")
    try:
        if len(sys.argv) > 2:
            from vlib.base import read_replay

            data = read_replay(sys.argv[2])
            if data is None:
                # something got stuck: the whole run is the replay
                with open(sys.argv[2]) as f:
                    run = dict(x.split("=", 1) for x in f.readline().split() if "=" in x)
                os.environ.update(VERIF_SEED=run["seed"], VERIF_TIER=run["tier"])
                del sys.argv[2:]
                code = mod.main()
            else:
                code = mod.replay(data)
        else:
            code = mod.main()
    except Inconclusive as e:
        print(f"INCONCLUSIVE: {e}")
        code = 3
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
