"""python3-vt lib/check.py <property id>: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, checks, bounds

def main():
    p = sys.argv[1]
    jobs = getattr(checks, p.lower())()
    extra = {}
    if isinstance(jobs, tuple):
        jobs, extra = jobs
    return core.run_check(p, jobs, bounds=bounds.BOUNDS.get(p, ""), extra=extra)

if __name__ == "__main__":
    sys.exit(main())
