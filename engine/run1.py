import sys, json, time
sys.path.insert(0, '/verif/engine')
import vcgen
P = vcgen.Program(sys.argv[1])
cfg = json.loads(sys.argv[3]) if len(sys.argv) > 3 else {}
names = [n[9:] for n in P.fn if n.startswith('vf_entry_')] if sys.argv[2] == 'all' else sys.argv[2].split(',')
for n in names:
    E = vcgen.Engine(P, cfg); t = time.time(); err = ''
    try: E.run_entry(n)
    except (vcgen.Unsupported, vcgen.Budget) as e: err = f'{type(e).__name__}: {e}'
    except Exception as e:
        import traceback; traceback.print_exc(); err = repr(e)
    import collections
    c = collections.Counter((o.label, o.status, o.backend) for o in E.obls)
    print(f'{n}: {time.time()-t:.2f}s solver {E.solver_time:.2f}s paths {getattr(E,"paths",0)} {getattr(E,"ended",{})} {err}')
    for k, v in c.items(): print('   ', k, v)
    for o in E.failed[:3]: print('    FAILED', o.label, o.where, o.status, o.model)
    if E.assumed: print('    assumed', E.assumed)
    if E.houdini: print('   inv', E.houdini)
