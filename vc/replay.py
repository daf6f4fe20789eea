"""The replay harness: the real sources of /repo compiled with a driver that generates inputs and evaluates the contracts."""
import os, subprocess, hashlib, glob
from .model import VERIF, REPO

FLAGS = {'main': [], 'gc': ['-DMPS_GC='], 'd3': ['-DDIM3='], 'gc3': ['-DMPS_GC=', '-DDIM3=']}
ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']

def source_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/OpenMps/*.[ch]pp')): h.update(f.encode()); h.update(open(f, 'rb').read())
    h.update(open(VERIF + '/harness/harness.cpp', 'rb').read())
    return h.hexdigest()[:16]

class Harness:
    def __init__(self, variant='main', asan=False):
        self.variant, self.asan = variant, asan
        self.dir = VERIF + '/build/harness'
        os.makedirs(self.dir, exist_ok=True)
        self.bin = '%s/%s-%s%s' % (self.dir, source_hash(), variant, '-asan' if asan else '')
        self.flags = FLAGS[variant] + (ASAN if asan else [])
        self.p = None
        self.error = ''
        if not os.path.exists(self.bin):
            self.tmp = '%s.%d.tmp' % (self.bin, os.getpid())
            self.p = subprocess.Popen(['clang++-18', '-std=c++17', '-stdlib=libc++', '-fopenmp=libomp', '-O1', '-g0', '-w',
                                       '-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE', '-I' + REPO + '/src/OpenMps', '-isystem', REPO + '/src/viennacl']
                                      + self.flags + [VERIF + '/harness/harness.cpp', '-o', self.tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    def ready(self):
        if self.p is not None:
            out = self.p.communicate()[0]
            if self.p.returncode == 0: os.rename(self.tmp, self.bin)
            else: self.error = out.decode('utf-8', 'replace')[:2000]
            self.p = None
        if not self.error:
            for f in glob.glob(self.dir + '/*'):  # drop builds of other sources
                if not os.path.basename(f).startswith(source_hash()) and not f.endswith('.tmp'):
                    try: os.unlink(f)
                    except OSError: pass
        return not self.error
    def cancel(self):
        if self.p is not None:
            self.p.kill(); self.p.communicate(); self.p = None
            try: os.unlink(self.tmp)
            except OSError: pass
    def run(self, pid, seed, secs, case=None):
        """(failed, output)"""
        cmd = [self.bin, pid, str(seed), str(secs)] + ([str(case)] if case is not None else [])
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0')
        env.setdefault('OMP_NUM_THREADS', '4')
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs * 3 + 60, env=env)
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('utf-8', 'replace')
            return None, out
        except OSError as e: return None, str(e)
        out = p.stdout.decode('utf-8', 'replace')
        if p.returncode == 0 and ('OK property=' + pid) in out: return False, out
        if ('FAIL property=' + pid) in out: return True, out
        if 'ERROR: AddressSanitizer' in out: return True, out
        return None, out
    def command(self, pid, seed, secs, case=None):
        return 'clang++-18 -std=c++17 -stdlib=libc++ -fopenmp=libomp -O1 -w -D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE -I/repo/src/OpenMps -isystem /repo/src/viennacl %s /verif/harness/harness.cpp -o /tmp/harness && /tmp/harness %s %d %s %s' % (' '.join(self.flags), pid, seed, secs, '' if case is None else case)
