"""One job in a process of its own: job.py <check module> ; job spec on stdin."""
import sys, os, json, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "checks")]


def main():
    job = json.load(sys.stdin)
    from result import R
    r = R(job)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)            # anything the repository prints stays out of the result
    try:
        import hw
        RE = hw.RepoError
    except Exception:
        class RE(Exception):
            pass
    try:
        mod = __import__(sys.argv[1])
        getattr(mod, job["fn"])(r, job)
    except RE as e:
        r.fail("elaboration", "the design does not elaborate: %s" % e)
    except Exception:
        r.vague("job %s failed: %s" % (job.get("name"), traceback.format_exc()[-1500:]))
    json.dump(r.dump(), out)
    out.close()


main()
