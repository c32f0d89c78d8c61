"""Entry point: run.py <PROPERTY>."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

MODULES = {}


def main():
    prop = sys.argv[1]
    common.setup_repo_path()
    modname = None
    for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))):
        if f.endswith(".py") and not f.startswith("_"):
            props = f[:-3].split("_")[0].upper().split("-")
            if prop in props:
                modname = f[:-3]
    if modname is None:
        print("no check for", prop)
        return 2
    ctx = common.Ctx(prop)
    try:
        try:
            mod = importlib.machinery.SourceFileLoader(
                modname, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", modname + ".py")
            ).load_module()
            getattr(mod, "check_" + prop)(ctx)
        except common.MachineryError:
            raise
        except Exception as e:
            frame = common.innermost_repo_frame(e)
            tb = e.__traceback__
            last = None
            while tb is not None:
                last = tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            # raised inside the code under test (or something it called), not in the harness
            harness = os.path.dirname(os.path.abspath(__file__))
            if frame is not None and last is not None and not last.startswith(harness):
                ctx.violation(f"exception:{frame}:{type(e).__name__}", common.fmt_exc(e), None)
            else:
                raise
    except BaseException as e:  # machinery failure
        import traceback

        traceback.print_exc()
        import shutil

        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    import importlib.machinery

    rc = main()
    sys.stdout.flush()
    os._exit(rc)
