"""verify.py ID [--tier quick|thorough] [--replay FILE] [--sub NAME] [--scale X]"""

import os
import sys

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def bootstrap() -> None:
    env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONUTF8": "1"}
    if any(os.environ.get(k) != v for k, v in env.items()):
        os.environ.update(env)
        os.execv(sys.executable, [sys.executable, *sys.argv])
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:] = [p for p in sys.path if p not in ("", here)]
    sys.path[:0] = [os.path.join(repo, "python"), here]
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)  # for hypothesis only; everything else comes first
    import moz.l10n

    want = os.path.realpath(os.path.join(repo, "python", "moz", "l10n"))
    got = [os.path.realpath(p) for p in moz.l10n.__path__]
    if got[0] != want:
        raise SystemExit(f"moz.l10n comes from {got}, not from {want}")


if __name__ == "__main__":
    bootstrap()
    import argparse

    from lib import harness

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args()
    os.chdir(os.path.dirname(os.path.abspath(__file__)))
    try:
        if args.id == "setup":  # nothing to build: only see that everything is in place
            import hypothesis

            print("ok: hypothesis", hypothesis.__version__, "moz.l10n from", harness.REPO)
            sys.exit(0)
        if args.replay:
            rc = harness.replay(args.id, args.replay)
        else:
            rc = harness.main(args.id, args.tier, args.sub, args.scale)
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        print(f"ERROR of the check {args.id}")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
