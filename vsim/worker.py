"""A worker: one fresh interpreter with a chosen hash seed.

Reads one JSON request per line on stdin, writes one JSON reply per line to
the original stdout (file descriptor kept aside; fd 1 goes to /dev/null so
that code under test can print).
"""
import importlib
import json
import os
import sys
import time


def main():
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('VSIM_STDERR'):
        os.dup2(devnull, 2)
    prop = sys.argv[1]
    from . import core
    sys.path.insert(0, core.REPO)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import tulip.synth
        mod = importlib.import_module(f'vsim.props.{prop.lower()}')
    except BaseException as e:  # import of the code under test failed
        import traceback
        fatal = ''.join(traceback.format_exception(e))[-3000:]
        out.write(json.dumps(dict(
            fatal=fatal, tulip=core.has_tulip_frame(e))) + '\n')
        out.flush()
        return
    if not os.path.realpath(sys.modules['tulip'].__file__).startswith(
            os.path.realpath(core.REPO)):
        out.write(json.dumps(dict(
            fatal='tulip is not imported from the repository')) + '\n')
        out.flush()
        return
    out.write(json.dumps(dict(ready=True)) + '\n')
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        op = q['op']
        if op == 'quit':
            break
        t0 = time.perf_counter()
        if op == 'run':
            r = core.execute(
                mod, seed=q.get('seed'), choices=q.get('choices'),
                tier=q.get('tier', 'quick'),
                keep_log=q.get('keep_log', False))
        elif op == 'minimise':
            from . import shrink
            r = shrink.minimise(
                mod, q['choices'], q['kind'], q.get('tier', 'quick'),
                q.get('budget', 60))
        else:
            raise ValueError(op)
        r['wall'] = time.perf_counter() - t0
        out.write(json.dumps(r, default=str) + '\n')
        out.flush()
    out.close()
    os._exit(0)


if __name__ == '__main__':
    main()
