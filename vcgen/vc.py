"""One harness: generate the obligations from the IR and discharge them.  Prints JSON."""
import sys, os, json, time, threading, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def run(cfg):
    from llsym import Machine, State, Unsupported, demangle, TRUE, FALSE
    from solve import Z, discharge, pcl
    import z3
    from terms import cone
    out = dict(harness=cfg['harness'], status='ok', groups=[], covers=[])
    t0 = time.time()
    m = None
    try:
        m = Machine(cfg['ir'])
        if cfg.get('contracts'):
            for rx, c in cfg['contracts'].items():
                m.contracts[rx] = (lambda f: lambda mm, st, av, rt: mm.call(f, av, st))(m.fns['@' + c])
        z = Z()
        m.solver = z
        end_ = cfg.get('deadline', 1e18)
        m.deadline = min(time.time() + cfg.get('gen_timeout', 500), end_)
        st = State()
        f = m.fns['@' + cfg['harness']]
        r = m.call(f, [], st)
        out['gen_s'] = round(time.time() - t0, 2)
        end = r[1] if r is not None else None
        t1 = time.time()
        stop = min(time.time() + cfg.get('solve_timeout', 500), end_)
        groups = discharge(z, m.obls, cfg.get('timeout', 60), stop=stop)
        for g in groups:
            mod = g.pop('model')
            if mod is not None:
                inp = {}
                for nm, vs in m.inputs:
                    inp[nm] = ''.join('%02x' % mod.eval(z.tr(v), model_completion=True).as_long() for v in vs)
                if m.fnvals:
                    from concretise import inputs
                    inp = inputs(m, z, mod, inp)
                g['inputs'] = inp
            w = g.pop('where')
            g['where'] = demangle(w if isinstance(w, str) else w[0])
        out['groups'] = groups
        bad = any(g['status'] != 'proved' for g in groups)
        # vacuity guards: a concrete assignment that satisfies the path facts, else the solver
        from terms import sem
        def reachable(ts):
            ts = [t for t in ts if t is not TRUE]
            for k in ['zeros', 'ones', 0, 1, 2, 3]:
                if all(sem(t, k) for t in ts):
                    return True
            return z.check(ts or [TRUE], 15)[0] != 'unsat'
        if not bad:
            if end is None:
                out['covers'].append(dict(name='end of harness', sat=False))
            else:
                out['covers'].append(dict(name='end of harness', sat=reachable(pcl(end.pc, 'ab'))))
            for nm, cs in m.covers.items():
                ok = False
                for c, pc in cs[:64]:
                    if c is FALSE:
                        continue
                    if reachable([c] + pcl(pc, 'ab')):
                        ok = True
                        break
                out['covers'].append(dict(name=nm, sat=ok))
        out['solve_s'] = round(time.time() - t1, 2)
        out['solver_s'] = round(z.t, 2)
        out['queries'] = z.queries
        out['inputs'] = len(m.inputs)
        out['input_bytes'] = sum(len(v) for _, v in m.inputs)
        out['steps'] = m.steps
        out['functions'] = sorted(set(demangle(x) for x in m.fnset))
        out['notes'] = sorted(m.notes)
    except Unsupported as e:
        out['status'] = 'unsupported'
        out['error'] = str(e)[:2000]
        out['gen_s'] = round(time.time() - t0, 2)
    except MemoryError:
        out['status'] = 'unsupported'
        out['error'] = 'out of memory'
    except Exception as e:
        out['status'] = 'error'
        out['error'] = traceback.format_exc()[-3000:]
    return out

def main():
    cfg = json.loads(sys.argv[1])
    resource.setrlimit(resource.RLIMIT_AS, (cfg.get('mem_gb', 12) << 30,) * 2)
    res = []
    def go():
        res.append(run(cfg))
    sys.setrecursionlimit(100000)
    threading.stack_size(1 << 30)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.write('\n@@VC ' + json.dumps(res[0] if res else dict(harness=cfg['harness'], status='error', error='no result', groups=[], covers=[])) + '\n')

main()
