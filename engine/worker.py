"""Prove one contract entry; writes a JSON report."""
import sys, json, time, os, resource, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    js, entry, cfg, out = sys.argv[1], sys.argv[2], json.loads(sys.argv[3]), sys.argv[4]
    resource.setrlimit(resource.RLIMIT_AS, (int(cfg.pop('mem', 6)) << 30,) * 2)
    sys.setrecursionlimit(100000)
    import vcgen, z3
    z3.set_param('smt.random_seed', 1)
    P = vcgen.Program(js)
    t = time.time(); err = ''; E = vcgen.Engine(P, cfg)
    try: E.run_entry(entry)
    except vcgen.Budget as e: err = f'budget: {e}'
    except vcgen.Unsupported as e: err = f'unsupported: {e}'
    except MemoryError: err = 'out of memory'
    except Exception as e:
        import traceback; err = f'internal: {e!r}\n' + traceback.format_exc()[-1500:]
    funcs = [P.dem.get(f, f) for f in E.funcs_used]
    rep = dict(entry=entry, time=time.time() - t, solver=E.solver_time, error=err, paths=getattr(E, 'paths', 0),
               obligations=[dict(label=o.label, status=o.status, backend=o.backend, time=round(o.time, 4), where=o.where, kind=o.kind, model=o.model) for o in E.obls],
               functions=sorted(funcs), assumed=E.assumed, houdini=[str(h) for h in E.houdini], covers=E.covers)
    json.dump(rep, open(out + '.tmp', 'w')); os.rename(out + '.tmp', out)
main()
