#!/usr/bin/env python3
"""Builds what the checks need from /repo's working tree into /verif/.build/<hash>/:
 - real ucc/cpp/cc1/rt (build/src/...)
 - relocatable images of the same objects with every libc entry point that touches the
   outside world renamed to sim_*, linked with the pipeline simulator -> uccsim
 - the run-time (codegen) simulator -> runsim
Prints the build directory."""
import os, sys, hashlib, subprocess, shutil, fcntl, re
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PURE = set('''memcpy memmove memset memcmp memchr memrchr mempcpy memccpy rawmemchr memmem strlen strnlen strcpy strncpy stpcpy stpncpy strcat strncat strcmp strncmp strcasecmp strncasecmp strchr strrchr strchrnul
strstr strcasestr strpbrk strspn strcspn strtok_r strsep strerror strerror_r strsignal strcoll strlcpy strlcat basename __xpg_basename dirname
isalnum isalpha isdigit isxdigit isspace isupper islower ispunct isprint isgraph iscntrl isblank tolower toupper __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc
atoi atol atoll atof strtol strtoul strtoll strtoull strtod strtof strtold strtoimax strtoumax __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull
__isoc99_sscanf __isoc23_sscanf __isoc99_vsscanf sscanf vsscanf snprintf vsnprintf sprintf vsprintf strftime qsort qsort_r bsearch abs labs llabs div ldiv lldiv lfind lsearch
pow powf powl sqrt sqrtf floor ceil fabs fmod ldexp frexp modf log log2 exp isnan isinf fmodl powl ldexpl frexpl round trunc lround llround roundl scalbn nan nanf difftime
__errno_location fabsl setjmp _setjmp longjmp __sigsetjmp siglongjmp sigemptyset sigaddset sigfillset sigdelset ffs ffsl ffsll timegm gmtime_r asctime_r
__stack_chk_guard __tls_get_addr _GLOBAL_OFFSET_TABLE_ localeconv mblen mbtowc wctomb mbstowcs __longjmp_chk gnu_get_libc_version iswprint wcwidth'''.split())

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write('build: %s failed:\n%s\n' % (cmd if isinstance(cmd, str) else ' '.join(cmd), r.stdout[-4000:]))
        sys.exit(3)
    return r.stdout

def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.o', '.d', '.d.tmp', '.img.o')) or f in ('config.custom.mk', 'tags') : continue
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            if os.access(p, os.X_OK) and open(p, 'rb').read(4) == b'\x7fELF': continue
            out.append(p)
    return out

def build(want=('uccsim', 'runsim')):
    src = os.path.join(REPO, 'src')
    files = tree_files(src)
    own = [os.path.join(VERIF, 'build.py')]
    for d in ('pipe', 'run'):
        p = os.path.join(VERIF, d)
        if os.path.isdir(p): own += [os.path.join(p, f) for f in sorted(os.listdir(p)) if os.path.isfile(os.path.join(p, f))]
    h = hashlib.sha256()
    for p in files: h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    hs = h.hexdigest()[:16]
    h2 = hashlib.sha256(h.digest())
    for p in own: h2.update(p.encode() + open(p, 'rb').read())
    B = os.path.join(VERIF, '.build', hs)
    os.makedirs(B, exist_ok=True)
    lock = open(os.path.join(VERIF, '.build', 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = os.path.join(B, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h2.hexdigest(): return B
    for o in os.listdir(os.path.join(VERIF, '.build')):   # drop older builds
        p = os.path.join(VERIF, '.build', o)
        if os.path.isdir(p) and p != B and os.path.getmtime(p) < os.path.getmtime(B) - 7200: shutil.rmtree(p, ignore_errors=True)
    bs = os.path.join(B, 'src')
    srcstamp = os.path.join(B, 'srcstamp')
    wraph = hashlib.sha256(open(os.path.join(VERIF, 'pipe/ccwrap'), 'rb').read() + open(os.path.join(VERIF, 'pipe/link.ld'), 'rb').read() + open(os.path.join(VERIF, 'build.py'), 'rb').read()).hexdigest()
    env = dict(os.environ, SIM_LDSCRIPT=os.path.join(VERIF, 'pipe/link.ld'), LC_ALL='C', MAKEFLAGS='')
    for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CC'): env.pop(k, None)
    if not (os.path.exists(srcstamp) and open(srcstamp).read() == wraph):
        shutil.rmtree(bs, ignore_errors=True)
        for p in files:
            q = os.path.join(bs, os.path.relpath(p, src))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            shutil.copy2(p, q)
        with open(os.path.join(bs, 'config.custom.mk'), 'w') as f:
            f.write('CC = %s\nCFLAGS = -w -fno-common -g -fno-builtin -fno-pie -fno-stack-protector -fcf-protection=none -U_FORTIFY_SOURCE\nCPPFLAGS =\nLDFLAGS =\n' % os.path.join(VERIF, 'pipe/ccwrap'))
        j = '-j8'
        utils = sorted(f[:-2] + '.o' for f in os.listdir(os.path.join(bs, 'util')) if f.endswith('.c') and f != 'test.c')
        sh(['make', j, '-C', os.path.join(bs, 'util')] + utils, env=env)
        sh(['make', j, '-C', os.path.join(bs, 'cc1'), 'cc1'], env=env)
        sh(['make', j, '-C', os.path.join(bs, 'cpp2'), 'cpp'], env=env)
        sh(['make', j, '-C', os.path.join(bs, 'ucc'), 'ucc'], env=env)
        sh(['make', '-C', os.path.join(bs, 'rt')], env=dict(env, TMPDIR=B))
        open(srcstamp, 'w').write(wraph)
    if 'uccsim' in want and os.path.exists(os.path.join(VERIF, 'pipe/main.cc')):
        procs = []
        P = os.path.join(VERIF, 'pipe')
        cxx = [f for f in sorted(os.listdir(P)) if f.endswith('.cc')]
        for f in cxx:
            procs.append((f, subprocess.Popen(['g++', '-std=c++17', '-O2', '-g1', '-Wall', '-Wno-unused-result', '-Wno-misleading-indentation', '-fno-pie', '-fno-stack-protector', '-fcf-protection=none', '-U_FORTIFY_SOURCE', '-c', '-o', os.path.join(B, 'sim_' + f[:-3] + '.o'), os.path.join(P, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, p in procs:
            o = p.communicate()[0]
            if p.returncode: sys.stderr.write(o[:6000]); sys.exit(3)
        syms = [l.split() for l in sh(['nm', '-g', '--defined-only', os.path.join(B, 'sim_libc.o')]).splitlines()]
        sim = sorted(s[2] for s in syms if len(s) == 3 and s[2].startswith('sim_'))
        known = set(s[4:] for s in sim)
        unknown = set()
        imgs = []
        for name, path in (('ucc', 'ucc/ucc'), ('cpp', 'cpp2/cpp'), ('cc1', 'cc1/cc1')):
            img = os.path.join(bs, path + '.img.o')
            out = os.path.join(B, name + '.img.o')
            und = set(l.split()[-1] for l in sh(['nm', '-u', img]).splitlines())
            unknown |= set(u for u in und if u not in known and u not in PURE)
            redef = os.path.join(B, name + '.redef')
            with open(redef, 'w') as f:
                for s in sim: f.write('%s %s\n' % (s[4:], s))
                f.write('main %s_main\n' % name)
            defd = set(l.split()[-1] for l in sh(['nm', '-g', '--defined-only', img]).splitlines())
            clash = defd & known - {'main'}
            with open(redef, 'w') as f:
                for s in sim:
                    if s[4:] not in clash: f.write('%s %s\n' % (s[4:], s))
                f.write('main %s_main\n' % name)
            sh(['objcopy', '--redefine-syms', redef, '--keep-global-symbol', name + '_main', '--rename-section', 'SIMDATA=simdata_' + name, img, out])
            imgs.append(out)
        with open(os.path.join(B, 'escapes.txt'), 'w') as f: f.write('\n'.join(sorted(unknown)) + '\n')
        sh(['g++', '-no-pie', '-o', os.path.join(B, 'uccsim'), '-Wl,-z,noexecstack'] + [os.path.join(B, 'sim_' + f[:-3] + '.o') for f in cxx] + imgs + ['-lm', '-ldl'])
    if 'runsim' in want and os.path.exists(os.path.join(VERIF, 'run/main.cc')):
        procs = []; P = os.path.join(VERIF, 'run'); cxx = [f for f in sorted(os.listdir(P)) if f.endswith('.cc')]
        for f in cxx: procs.append(subprocess.Popen(['g++', '-std=c++17', '-O2', '-g1', '-Wall', '-Wno-unused-result', '-Wno-misleading-indentation', '-fpie', '-fno-stack-protector', '-fcf-protection=none', '-U_FORTIFY_SOURCE', '-c', '-o', os.path.join(B, 'run_' + f[:-3] + '.o'), os.path.join(P, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in procs:
            o = p.communicate()[0]
            if p.returncode: sys.stderr.write(o[:6000]); sys.exit(3)
        sh(['g++', '-pie', '-o', os.path.join(B, 'runsim')] + [os.path.join(B, 'run_' + f[:-3] + '.o') for f in cxx])
    open(stamp, 'w').write(h2.hexdigest())
    return B

if __name__ == '__main__':
    print(build())
