"""Fresh interpreter: loads targets and prints digests of everything observable about them.

stdin: {"root": dir, "targets": [{kind, path}], "pickles": [file], "inputs": {...}}"""
import json
import logging
import os
import sys
import warnings


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from sim import core, obs, world
    sys.path.insert(0, core.REPO)
    import numpy as np
    import NRWAL
    assert os.path.realpath(NRWAL.__file__).startswith(os.path.realpath(core.REPO) + os.sep)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    job = json.load(sys.stdin)
    out = []
    for t in job.get('targets', []):
        try:
            o = world.load(t['kind'], os.path.join(job['root'], t['path']))
            text = full_text(o, obs)
        except Exception as e:
            text = 'exc %s %s' % (type(e).__name__, e)
        text = text.replace(job['root'], '$R')
        out.append([core.digest(text), text if job.get('text') else text[:0]])
    for p in job.get('pickles', []):
        import pickle
        with open(p, 'rb') as f:
            o = pickle.load(f)
        text = full_text(o, obs, evaluate=job.get('evaluate', True)).replace(job['root'], '$R')
        out.append([core.digest(text), text if job.get('text') else ''])
    json.dump(out, sys.stdout)


def full_text(o, obs, evaluate=True):
    text = repr(obs.any_obj(o))
    if hasattr(o, 'required_inputs') and evaluate:
        r = obs.call(o.evaluate, obs.env_of(o.missing_inputs))
        text += repr(obs.nval(r)) + repr(list(r[1]) if r[0] == 'ok' else '')
    return text


if __name__ == '__main__':
    main()
