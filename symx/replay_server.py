"""Runs harnesses on the real, unmodified code: one JSON request per line on stdin, one answer per line."""
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, 'src'))


class Timeout(BaseException):
    pass


def on_alarm(sig, frame):
    raise Timeout()


def run_one(req, cache):
    from symx import api, registry
    prop = req['prop']
    if prop not in cache:
        cache[prop] = registry.load(prop)
    hs = dict((h.name, h) for h in cache[prop])
    h = hs[req['harness']]
    ctx = api.ConCtx(req['inputs'], req.get('tier', 'quick'))
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(req.get('timeout', 20)))
    try:
        h.fn(ctx, req['case'])
        res = {'status': 'ok', 'reached': len(ctx.reached)}
    except api.Violation as e:
        res = {'status': 'violation', 'label': e.label, 'info': safe(e.info)}
    except api.AssumeFailed:
        res = {'status': 'assume'}
    except Timeout:
        res = {'status': 'violation', 'label': 'does not finish', 'info': ''}
    except MemoryError:
        res = {'status': 'violation', 'label': 'out of memory', 'info': ''}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        res = {'status': 'violation', 'label': 'unexpected %s' % type(e).__name__, 'info': '%s @ %s' % (safe(e), where)}
    finally:
        signal.alarm(0)
    return res


def safe(x):
    try:
        return repr(x)[:600]
    except Exception:
        return '?'


def main():
    real = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    cache = {}
    for line in sys.stdin:
        req = json.loads(line)
        try:
            res = run_one(req, cache)
        except Exception as e:
            res = {'status': 'error', 'info': traceback.format_exc()[-800:]}
        real.write(json.dumps(res) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
