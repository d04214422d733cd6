"""One shard of one property in one configuration.  Arguments: a JSON job on stdin."""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.append(HERE)


def main():
    job = json.load(sys.stdin)
    if job.get('mem'):
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (job['mem'], job['mem']))
    sys.setrecursionlimit(5000)

    import pyrsistent
    repo = os.path.realpath(job['repo'])
    assert os.path.realpath(pyrsistent.__file__).startswith(repo + os.sep), pyrsistent.__file__
    from pyrsistent import pvector
    kind = type(pvector()).__module__
    if job['config'] == 'py':
        assert 'pvectorc' not in kind, kind
    else:
        import pvectorc
        assert os.path.realpath(pvectorc.__file__).startswith(os.path.realpath(job['lib']) + os.sep), pvectorc.__file__
        assert kind == 'pvectorc', kind

    from core import Ctx, StopShard, Violation, Watchdog, save_result
    ctx = Ctx(job['prop'], job['config'], job['tier'], job['spec'], set(job['known']))
    Watchdog(ctx, job['out'] + '.beat', job.get('limit', 90)).start()
    try:
        mod = importlib.import_module('props.' + job['prop'].lower())
        mod.run_shard(ctx, job['spec'])
    except StopShard:
        pass
    except Violation as v:
        try:
            ctx.violation(v.msg, v.trace, v.sig)
        except StopShard:
            pass
    except BaseException as e:
        # On the unchanged tree no exception escapes; an operation that raises something that
        # it should not is a violation.
        try:
            ctx.violation('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:]))
        except StopShard:
            pass
    save_result(ctx, job['out'])
    sys.stdout.flush()
    os._exit(0)


main()
