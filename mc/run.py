"""Entry point: python -m mc.run C01 quick|thorough   or   python -m mc.run C01 --replay FILE."""
import logging
import os
import pathlib
import sys
import warnings


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    replay = sys.argv[3] if tier == "--replay" else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    warnings.simplefilter("ignore")
    modname = f"mc.{prop.lower()}"
    try:
        import calliope
    except BaseException as e:
        rdir = pathlib.Path(__file__).resolve().parent.parent / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        p = rdir / f"{prop}-import.txt"
        p.write_text(repr(e))
        print(f"calliope cannot be imported: {e!r}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    repo = os.environ.get("MC_REPO", "/repo")
    assert calliope.__file__.startswith(repo + "/"), calliope.__file__
    logging.disable(logging.CRITICAL)
    from mc import core

    return core.run(modname, tier if not replay else "quick", seed, replay=replay)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
