"""One exploring process.  Argument: a JSON job description from mc.run."""

import importlib
import json
import os
import sys
import traceback
import warnings


def main():
    spec = json.loads(sys.argv[1])
    from mc.ctx import Ctx

    warnings.simplefilter("ignore")
    ctx = Ctx(spec)
    repo = os.path.realpath(os.environ["PYTHONPATH"].split(os.pathsep)[1])
    if spec["backend"] != "none":
        try:
            import gpmp
            import gpmp.num
        except Exception as exc:  # the package cannot even be imported
            ctx.violations.append({
                "property": spec["property"], "backend": spec["backend"],
                "key": "import", "message": f"importing the package failed: {exc!r}",
                "detail": traceback.format_exc()[-2000:],
            })
            ctx.dump(spec["out"])
            return
        where = os.path.realpath(gpmp.__file__)
        if not where.startswith(repo + os.sep):
            raise SystemExit(f"wrong package under test: {where}")
    module = importlib.import_module("mc.checks." + spec["property"].lower())
    try:
        module.explore(ctx)
    except Exception:
        ctx.errors.append(traceback.format_exc()[-3000:])
    ctx.dump(spec["out"])


if __name__ == "__main__":
    main()
