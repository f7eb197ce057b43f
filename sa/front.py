"""Runs the clang front end (tool/vtsa.cc) over translation units of /repo and
merges its export into one fact base.  Nothing of vt is executed."""
import os, re, json, hashlib, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
SRC = REPO + '/src/'
BUILD = VERIF + '/build'


class AnalysisError(Exception):
    pass


DEFAULT = dict(no_feature=0, bit_check_overflow=0, trace_enabled=0, trace_only=0, lblite=1,
               production=0, mpi_rdma=0, print_term_msgs=0, no_pool_alloc_env=0, memory_pool=1,
               priority_bits_level=3, priorities=0, fcontext=0, test_trace_on=0, mimalloc=0,
               mpi_access_guards=1, zoltan=0, ci_build=0, diagnostics=0, diagnostics_runtime=0,
               libfort=0, production_build=0, debug_verbose=0, rdma_tests=1, external_fmt=0,
               libunwind=1, tv=0, perf=0)
CONFIGS = {
    # what /opt/vp/build.sh configures (debug prints off: they are not behaviour)
    'default': dict(DEFAULT),
    # every optional subsystem that can be parsed here
    'full': dict(DEFAULT, trace_enabled=1, priorities=1, fcontext=1, diagnostics=1,
                 diagnostics_runtime=1),
    # the trace-only library
    'trace': dict(DEFAULT, trace_enabled=1, trace_only=1),
}
# what is compiled into it, and what the build compiles with its configuration
TRACE_TUS = ['gen:mpiwrap'] + ['vt/%s.cc' % x for x in '''trace/trace_containers trace/trace_event trace/trace_lite trace/trace_user_event trace/trace_registry
    pmpi/pmpi_component runtime/mpi_access timing/timing context/context utils/demangle/demangle collective/basic configs/error/pretty_print_message
    collective/startup collective/tree/tree configs/arguments/args configs/error/stack_out context/context_attorney context/runnable_context/set_context
    elm/elm_id epoch/epoch_manip epoch/epoch_window group/region/group_list group/region/group_range group/region/group_shallow_list metrics/perf_data
    pool/header/pool_header pool/pool runtime/component/component_pack runtime/runtime_inst termination/graph/epoch_graph timetrigger/time_trigger_manager
    utils/mpi_limits/mpi_max_tag vrt/collection/balance/read_lb'''.split()]
HAS = ['malloc_h', 'popen', 'pclose', 'sbrk', 'mallinfo', 'getrusage', 'sysinfo', 'getpid',
       'sys_resource_h', 'unistd_h', 'inttypes_h', 'sysconf', 'execinfo_h']


def config_dir(cfg):
    d = '%s/cfg/%s' % (BUILD, cfg)
    os.makedirs(d + '/vt', exist_ok=True)
    tmpl = open(REPO + '/cmake_config.h.in').read()
    vals = CONFIGS[cfg]

    def sub(m):
        n = m.group(1)
        if n.startswith('vt_feature_cmake_'):
            k = n[len('vt_feature_cmake_'):]
            return str(vals.get(k, 0))
        if n == 'cmake_detected_max_num_nodes':
            return '8'
        return '0'
    t = re.sub(r'@(\w+)@', sub, tmpl)

    def cd(m):
        n = m.group(1)
        on = n.startswith('vt_quirked') or (n.startswith('vt_has_') and n[7:] in HAS)
        return '#define ' + n if on else '/* #undef %s */' % n
    t = re.sub(r'#cmakedefine (\w+)', cd, t)
    p = d + '/vt/cmake_config.h'
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(t)
        os.replace(tmp, p)
    return d


def flags(cfg):
    d = config_dir(cfg)
    return ['-DJSON_USE_IMPLICIT_CONVERSIONS=1', '-I' + VERIF + '/stub', '-I' + REPO + '/lib/CLI',
            '-I' + REPO + '/src', '-I' + d, '-I' + REPO + '/lib/json/include',
            '-I' + REPO + '/lib/brotli/c/include', '-I' + REPO + '/lib/fmt/include',
            '-I' + REPO + '/lib/context/src',
            '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
            '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi',
            '-isystem', REPO + '/lib/EngFormat-Cpp/include',
            '-isystem', REPO + '/lib/yaml-cpp/include', '-std=c++17', '-w', '-ferror-limit=50']


def tool():
    r = subprocess.run([VERIF + '/tool/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError('front end does not build: ' + r.stderr[-2000:])
    h = hashlib.sha256(open(VERIF + '/tool/vtsa.cc', 'rb').read()).hexdigest()[:16]
    return '%s/vtsa-%s' % (BUILD, h)


_treehash = None


def tree_hash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for base in (SRC, REPO + '/lib/CLI', VERIF + '/stub', VERIF + '/drv'):
            for r, ds, fs in os.walk(base):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.cc', '.hpp', '.in', '.def', '.pl')):
                        p = os.path.join(r, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        h.update(open(REPO + '/cmake_config.h.in', 'rb').read())
        _treehash = h.hexdigest()[:20]
    return _treehash


def wrappers():
    """the translation unit the build generates from vt/pmpi, generated the same way"""
    d = '%s/gen/%s' % (BUILD, tree_hash())
    p = d + '/mpiwrap.cc'
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        tmp = p + '.%d.tmp' % os.getpid()
        r = subprocess.run(['perl', SRC + 'vt/pmpi/generate_mpi_wrappers.pl', SRC + 'vt/pmpi/mpi_functions.h.in', tmp], capture_output=True, text=True)
        if r.returncode: raise AnalysisError('the wrappers cannot be generated: ' + r.stderr[-1000:])
        os.replace(tmp, p)
    return p


def run_tu(tu, cfg, inst=''):
    """tu: path relative to /repo/src, or absolute (a driver in /verif/drv)."""
    t = tool()
    src = wrappers() if tu == 'gen:mpiwrap' else tu if tu.startswith('/') else SRC + tu
    if not os.path.exists(src):
        raise AnalysisError('translation unit vanished: ' + src)
    key = hashlib.sha256(('%s|%s|%s|%s|%s' % (t, tree_hash(), src, cfg, inst)).encode()).hexdigest()[:24]
    cdir = BUILD + '/cache'
    os.makedirs(cdir, exist_ok=True)
    out = '%s/%s.jsonl' % (cdir, key)
    if os.path.exists(out) and not os.environ.get('VTSA_NOCACHE'):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = [t, '-o', tmp, '--root', SRC, '--root', VERIF + '/drv/']
    if tu.startswith('gen:'): cmd += ['--root', os.path.dirname(src) + '/']
    if inst:
        cmd += ['--inst', inst]
    r = subprocess.run(cmd + [src, '--'] + flags(cfg), capture_output=True, text=True)
    if r.returncode or not os.path.exists(tmp):
        raise AnalysisError('cannot parse %s (%s): %s' % (tu, cfg, (r.stderr or r.stdout)[-3000:]))
    os.replace(tmp, out)
    return out


class Facts:
    def __init__(self):
        self.funcs = {}      # key -> func (pattern or plain)
        self.byq = {}        # qualified name -> [func]
        self.insts = {}      # pattern qname -> [func]
        self.recs = {}
        self.recinsts = {}
        self.enums = {}
        self.vars = {}
        self.tus = []

    def add(self, path):
        for l in open(path):
            k, v = json.loads(l)
            if k == 'F':
                if v['inst']:
                    L = self.insts.setdefault(v['q'], {})
                    L.setdefault(v['iname'], v)
                else:
                    if v['key'] not in self.funcs:
                        self.funcs[v['key']] = v
                        self.byq.setdefault(v['q'], []).append(v)
            elif k == 'R':
                if v['inst']:
                    self.recinsts.setdefault(v['q'], []).append(v)
                else:
                    self.recs.setdefault(v['q'], v)
            elif k == 'E':
                self.enums.setdefault(v['q'], v)
            elif k == 'V':
                o = self.vars.get(v['q'])
                if o is None or ('init' not in o and 'init' in v):
                    self.vars[v['q']] = v

    def unsigned_fields(self):
        """(record, field) of unsigned integer type"""
        if self._uns is None:
            self._uns = {(q, f[0]) for q, r in self.recs.items() for f in r.get('fields', ())
                         if re.match(r'^(const )?unsigned (char|short|int|long|long long)$', f[2] or '')}
        return self._uns

    _uns = None

    def unsigned_methods(self):
        """methods (also those without a body) that return an unsigned integer"""
        if self._unm is None:
            self._unm = {m[4] for r in self.recs.values() for m in r.get('members', ())
                         if len(m) > 8 and re.match(r'^(std::)?(unsigned\b[^(]*|size_t|uint\d+_t) \(', m[8] or '')}
        return self._unm

    _unm = None

    def const_methods(self):
        """names that only methods bear that are all constant and return a value"""
        if self._cm is None:
            M = {}
            for r in self.recs.values():
                for m in r.get('members', ()):
                    if len(m) > 8: M.setdefault(m[0], set()).add(bool(re.search(r'\) const\b', m[8] or '')) and not re.match(r'void \(|.*PendingSend', m[8]))
            self._cm = {n for n, k in M.items() if k == {True} and not re.match(r'(make|create|register|insert|destroy)', n)}
        return self._cm

    _cm = None

    def fieldkind(self, name):
        """the standard container that every member of that name is"""
        if self._fk is None:
            K = {}
            for r in self.recs.values():
                for f in r.get('fields', ()):
                    m = re.match(r'^std::(?:__\w+::)?(unordered_map|unordered_set|map|set|vector|list|deque|queue|stack|priority_queue)<', f[2] or f[1] or '')
                    K.setdefault(f[0], set()).add(m.group(1) if m else None)
            self._fk = {n: k.pop() for n, k in K.items() if len(k) == 1}
        return self._fk.get(name)

    _fk = None

    def fn(self, q, n=None, sig=None):
        """The one function with that qualified name (n: number of parameters)."""
        L = self.byq.get(q, [])
        if n is not None:
            L = [f for f in L if len(f['params']) == n]
        if sig is not None:
            L = [f for f in L if re.search(sig, f['sig'])]
        if not L:
            raise AnalysisError('anchor vanished: function %s%s' % (q, '' if n is None else '/%d' % n))
        if len(L) > 1:
            raise AnalysisError('anchor ambiguous: function %s (%d definitions)' % (q, len(L)))
        return L[0]

    def fns(self, q):
        return self.byq.get(q, [])


def load(tus, cfg='default', inst=''):
    tool()
    config_dir(cfg)
    tree_hash()
    tus = list(dict.fromkeys(tus))
    F = Facts()
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda t: run_tu(t, cfg, inst), tus))
    for o in outs:
        F.add(o)
    F.tus = tus
    F.cfg = cfg
    return F


def all_tus():
    r = []
    for d, ds, fs in os.walk(SRC + 'vt'):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.cc'):
                r.append(os.path.relpath(os.path.join(d, f), SRC))
    # these need libraries that are not installed, or are generated
    return [t for t in sorted(r) if '/pmpi/' not in t and 'vt/standalone' not in t]
