"""C20: WASI file operations against POSIX.  Random histories of calls are
carried out twice, by toywasm and by the POSIX calls on a shadow tree; error
codes, guest memory and both trees must agree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import wasifs  # noqa: E402
from vp.common import run_check  # noqa: E402


def main(c):
    c.rule = 'histories of calls which differ in a call or in an outcome'
    cfgs = ['asan', 'msan', 'rel', 'dbg']
    base, clis = wasifs.prepare(cfgs)
    n = c.scale(1000, 20000)
    jobs = []
    for i in range(n):
        cfg = cfgs[(0, 0, 1, 2, 2, 3)[i % 6]]
        jobs.append((cfg, clis[cfg], cfg in ('asan', 'msan'), c.seed * 10_000_000 + i, (20, 60, 120, 200)[i % 4], None, base, ()))
    for r in wasifs.run_batch(c, jobs, 'posix'):
        pass
    # rare calls: make sure that the workload really had them
    seen = {tuple(k.split(':')) for k in c.coverage['posix']['outcomes']}
    for f in ('path_open', 'path_rename', 'path_link', 'path_symlink', 'path_readlink', 'fd_pread', 'fd_pwrite', 'fd_allocate', 'fd_seek',
              'path_filestat_set_times', 'fd_filestat_set_times', 'path_remove_directory', 'path_unlink_file', 'path_create_directory'):
        if (f, '0') not in seen:
            raise RuntimeError(f'no successful {f} in the workload')
    c.assumptions = ['directories are not renamed or removed while a descriptor for them is open (see C19)',
                     'timestamps are multiples of a microsecond']


if __name__ == '__main__':
    run_check('C20', main)
