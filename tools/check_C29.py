#!/usr/bin/env python3
"""check_C29.py: type-level witnesses for C29, decided by the compiler's type checker on /repo's current headers.

Every witness is a small program.  A *control* must compile; a *misuse* (the control plus one marked line
that copies an owning object or passes the wrong lock) must be rejected, and rejected because of the
marked line: one of the diagnostics, or of the instantiation notes attached to it, lies on that line.
Misuses are only compiled (-fsyntax-only), nothing is run."""
import sys, os, json, subprocess, time, glob, hashlib, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BTA_REPO', '/repo')
CXX = '/usr/lib/llvm-18/bin/clang++'
FLAGS = ['-fsyntax-only', '-std=gnu++17', '-w', '-fno-caret-diagnostics', '-ferror-limit=0', '-DBOOST_THREAD_NO_LIB=1', '-DBOOST_ALL_NO_LIB', '-DBOOST_THREAD_POSIX',
         '-I' + REPO + '/include', '-I/opt/vp/lib/shadow', '-I' + V + '/tu/shim']
B = 'boost::'
CFG = {'v2': ['-DBOOST_THREAD_VERSION=2', '-DBOOST_THREAD_PROVIDES_FUTURE'], 'v5': ['-DBOOST_THREAD_VERSION=5', '-DBOOST_THREAD_PROVIDES_ONCE_CXX11']}
# type, header(s), setup code that declares `x` (and whatever it needs), movable?, configurations
T = []
def t(name, hdr, setup, movable=False, cfgs=('v2', 'v5'), what='', assign=True, skip=()): T.append(dict(name=name, hdr=hdr.split(), setup=setup, movable=movable, cfgs=cfgs, what=what, assign=assign, skip=skip))
for m, h in [('mutex', 'mutex'), ('timed_mutex', 'mutex'), ('recursive_mutex', 'recursive_mutex'), ('recursive_timed_mutex', 'recursive_mutex'), ('shared_mutex', 'shared_mutex'), ('upgrade_mutex', 'shared_mutex'),
             ('null_mutex', 'null_mutex'), ('condition_variable', 'condition_variable'), ('condition_variable_any', 'condition_variable'), ('thread_group', 'thread'), ('barrier#(2u)', 'barrier'),
             ('latch#(1)', 'latch'), ('completion_latch#(1)', 'completion_latch'), ('basic_thread_pool#(1)', 'executors/basic_thread_pool'), ('loop_executor', 'executors/loop_executor'),
             ('inline_executor', 'executors/inline_executor'), ('thread_executor', 'executors/thread_executor')]:
    n, _, ctor = m.partition('#')
    cfgs = ('v2', 'v5')
    if 'executor' in n or 'pool' in n: cfgs = ('v5',)
    t('boost::' + n, h, f'boost::{n} x{ctor};', cfgs=cfgs)
t('boost::once_flag', 'once', 'boost::once_flag x;', cfgs=('v5',))
t('boost::lock_guard<boost::mutex>', 'lock_guard mutex', 'boost::mutex m; boost::lock_guard<boost::mutex> x(m);')
t('boost::shared_lock_guard<boost::shared_mutex>', 'shared_lock_guard shared_mutex', 'boost::shared_mutex m; boost::shared_lock_guard<boost::shared_mutex> x(m);')
t('boost::strict_lock<boost::mutex>', 'strict_lock mutex', 'boost::mutex m; boost::strict_lock<boost::mutex> x(m);')
t('boost::nested_strict_lock<boost::unique_lock<boost::mutex> >', 'strict_lock mutex lock_types', 'boost::mutex m; boost::unique_lock<boost::mutex> l(m); boost::nested_strict_lock<boost::unique_lock<boost::mutex> > x(l);')
t('boost::reverse_lock<boost::unique_lock<boost::mutex> >', 'reverse_lock mutex lock_types', 'boost::mutex m; boost::unique_lock<boost::mutex> l(m); boost::reverse_lock<boost::unique_lock<boost::mutex> > x(l);')
t('boost::unique_lock<boost::mutex>', 'lock_types mutex', 'boost::mutex m; boost::unique_lock<boost::mutex> x(m);', True)
t('boost::unique_lock<boost::timed_mutex>', 'lock_types mutex', 'boost::timed_mutex m; boost::unique_lock<boost::timed_mutex> x(m);', True)
t('boost::shared_lock<boost::shared_mutex>', 'lock_types shared_mutex', 'boost::shared_mutex m; boost::shared_lock<boost::shared_mutex> x(m);', True)
t('boost::upgrade_lock<boost::upgrade_mutex>', 'lock_types shared_mutex', 'boost::upgrade_mutex m; boost::upgrade_lock<boost::upgrade_mutex> x(m);', True)
t('boost::upgrade_to_unique_lock<boost::upgrade_mutex>', 'lock_types shared_mutex', 'boost::upgrade_mutex m; boost::upgrade_lock<boost::upgrade_mutex> l(m); boost::upgrade_to_unique_lock<boost::upgrade_mutex> x(l);', True)
t('boost::thread', 'thread', 'boost::thread x;', True)
t('boost::thread (started)', 'thread', 'boost::thread x([]{});', True)
t('boost::scoped_thread<>', 'scoped_thread', 'boost::scoped_thread<> x;', True)
t('boost::strict_scoped_thread<>', 'scoped_thread', 'boost::strict_scoped_thread<> x((boost::thread()));')
t('boost::thread_guard<>', 'thread_guard', 'boost::thread h; boost::thread_guard<> x(h);')
t('boost::thread_specific_ptr<int>', 'tss', 'boost::thread_specific_ptr<int> x;')
for a in ('int', 'int&', 'void'):
    t(f'boost::promise<{a}>', 'future', f'boost::promise<{a}> x;', True)
    t(f'boost::unique_future<{a}>', 'future', f'boost::promise<{a}> p; boost::BOOST_THREAD_FUTURE<{a}> x(p.get_future());', True)
t('boost::packaged_task<int>', 'future', 'boost::packaged_task<int> x([]{ return 1; });', True, cfgs=('v2',))
t('boost::packaged_task<int()>', 'future', 'boost::packaged_task<int()> x([]{ return 1; });', True, cfgs=('v5',))
t('boost::packaged_task<void(int)>', 'future', 'boost::packaged_task<void(int)> x([](int){});', True, cfgs=('v5',))
for q, h in [('sync_queue<int>', 'sync_queue'), ('sync_bounded_queue<int>#(2)', 'sync_bounded_queue'), ('sync_deque<int>', 'sync_deque'), ('sync_priority_queue<int>', 'sync_priority_queue'), ('sync_timed_queue<int>', 'sync_timed_queue')]:
    n, _, c = q.partition('#')
    ns = '' if n.startswith(('sync_queue', 'sync_bounded')) else 'concurrent::'
    t('boost::' + ns + n, 'concurrent_queues/' + h, f'boost::{ns}{n} x{c};')
t('boost::concurrent::queue_adaptor', 'concurrent_queues/queue_adaptor concurrent_queues/sync_queue', 'boost::queue_adaptor<boost::sync_queue<int> > x;')
# (queue_base itself is a stateless interface)
#t('boost::concurrent::queue_base (through a reference)', 'concurrent_queues/queue_base', 'extern boost::concurrent::queue_base<int>& x;', what='boost::concurrent::queue_base<int>')
t('boost::serial_executor', 'executors/serial_executor executors/basic_thread_pool', 'boost::basic_thread_pool b(1); boost::serial_executor x(b);', cfgs=('v5',), skip=('copy constructed',))   # a serial executor on top of another one
t('boost::serial_executor_cont', 'executors/serial_executor_cont executors/basic_thread_pool', 'boost::basic_thread_pool b(1); boost::serial_executor_cont x(b);', cfgs=('v5',), skip=('copy constructed',))
t('boost::executor_adaptor<boost::inline_executor>', 'executors/executor_adaptor executors/inline_executor', 'boost::executor_adaptor<boost::inline_executor> x;', cfgs=('v5',))
t('boost::executor (through a reference)', 'executors/executor', 'extern boost::executor& x;', cfgs=('v5',), what='boost::executor')
t('boost::executors::scheduled_thread_pool', 'executors/scheduled_thread_pool', 'boost::executors::scheduled_thread_pool x(1);', cfgs=('v5',))
t('boost::executors::scheduler<>', 'executors/scheduler', 'boost::executors::scheduler<> x;', cfgs=('v5',))
t('boost::executors::scheduling_adaptor<boost::basic_thread_pool>', 'executors/scheduling_adaptor executors/basic_thread_pool', 'boost::basic_thread_pool b(1); boost::executors::scheduling_adaptor<boost::basic_thread_pool> x(b);', cfgs=('v5',))
t('boost::this_thread::disable_interruption', 'thread', 'boost::this_thread::disable_interruption x;')
t('boost::this_thread::restore_interruption', 'thread', 'boost::this_thread::disable_interruption d; boost::this_thread::restore_interruption x(d);')
t('boost::testable_mutex<boost::mutex>', 'testable_mutex mutex', 'boost::testable_mutex<boost::mutex> x;')
t('boost::basic_lockable_adapter', 'lockable_adapter mutex', 'struct L : boost::basic_lockable_adapter<boost::mutex> {}; boost::basic_lockable_adapter<boost::mutex> x;')
t('boost::shared_lockable_adapter', 'lockable_adapter shared_mutex', 'boost::shared_lockable_adapter<boost::shared_mutex> x;')
t('boost::synchronized_value lock', 'synchronized_value', 'boost::synchronized_value<int> v; boost::strict_lock_ptr<int> x = v.synchronize();', True, what='boost::strict_lock_ptr<int>', assign=False)
t('boost::unique_lock_ptr<int>', 'synchronized_value', 'boost::synchronized_value<int> v; boost::unique_lock_ptr<int> x = v.unique_synchronize();', True, assign=False)
# misuse of lock passing interfaces: name, headers, control code, misuse line
M = []
def m(name, hdr, control, misuse, cfgs=('v2', 'v5')): M.append((name, hdr.split(), control, misuse, cfgs))
CV = 'boost::mutex m; boost::timed_mutex tm; boost::recursive_mutex rm; boost::condition_variable c; boost::unique_lock<boost::mutex> ul(m); boost::unique_lock<boost::timed_mutex> ut(tm); boost::unique_lock<boost::recursive_mutex> ur(rm); boost::lock_guard<boost::mutex> lg(m); boost::chrono::seconds s(1); boost::chrono::steady_clock::time_point tp; auto pr = [] { return true; };'
H = 'condition_variable mutex recursive_mutex lock_guard lock_types'
for call, good in [('c.wait({})', 'ul'), ('c.wait({}, pr)', 'ul'), ('c.wait_for({}, s)', 'ul'), ('c.wait_for({}, s, pr)', 'ul'), ('c.wait_until({}, tp)', 'ul'), ('c.wait_until({}, tp, pr)', 'ul'), ('c.timed_wait({}, boost::get_system_time())', 'ul'), ('boost::notify_all_at_thread_exit(c, boost::move({}))', 'ul')]:
    cf_ = ('v2',) if 'timed_wait' in call else ('v2', 'v5')
    for bad, why in [('ut', 'a lock of a timed mutex'), ('ur', 'a lock of a recursive mutex'), ('lg', 'a lock_guard'), ('m', 'a mutex')]:
        m(f'condition_variable {call.format(why)}', H, CV + call.format('ul') + ';', call.format(bad), cf_)
m('notify_all_at_thread_exit with a lock that stays with the caller', H, CV + 'boost::notify_all_at_thread_exit(c, boost::move(ul));', 'boost::notify_all_at_thread_exit(c, ul)')
CA = 'boost::mutex m; boost::condition_variable_any c; boost::unique_lock<boost::mutex> ul(m); boost::lock_guard<boost::mutex> lg(m); boost::chrono::seconds s(1);'
m('condition_variable_any wait with a lock_guard', H, CA + 'c.wait(ul); c.wait_for(ul, s);', 'c.wait(lg)'); m('condition_variable_any wait_for with a lock_guard', H, CA, 'c.wait_for(lg, s)'); m('condition_variable_any wait with a temporary', H, CA, 'c.wait(boost::unique_lock<boost::mutex>(m))')
U = 'boost::upgrade_mutex m; boost::upgrade_lock<boost::upgrade_mutex> ug(m, boost::defer_lock); boost::unique_lock<boost::upgrade_mutex> un(m, boost::defer_lock); boost::shared_lock<boost::upgrade_mutex> sh(m, boost::defer_lock); boost::mutex pm; boost::unique_lock<boost::mutex> pl(pm); (void)pl;'
LH = 'lock_types shared_mutex mutex'
m('shared_lock taken from a unique_lock that keeps its lock', LH, U + 'boost::shared_lock<boost::upgrade_mutex> z(boost::move(un));', 'boost::shared_lock<boost::upgrade_mutex> z1(un)')
m('shared_lock taken from an upgrade_lock that keeps its lock', LH, U + 'boost::shared_lock<boost::upgrade_mutex> z(boost::move(ug));', 'boost::shared_lock<boost::upgrade_mutex> z1(ug)')
m('upgrade_lock taken from a unique_lock that keeps its lock', LH, U + 'boost::upgrade_lock<boost::upgrade_mutex> z(boost::move(un));', 'boost::upgrade_lock<boost::upgrade_mutex> z1(un)')
m('unique_lock from an upgrade_lock that keeps its lock', LH, U, 'boost::unique_lock<boost::upgrade_mutex> z1(ug)')
m('unique_lock assigned from a shared_lock', LH, U, 'un = sh'); m('unique_lock moved from a shared_lock', LH, U, 'boost::unique_lock<boost::upgrade_mutex> z1(boost::move(sh))', ('v2',)); m('upgrade_lock moved from a shared_lock', LH, U, 'boost::upgrade_lock<boost::upgrade_mutex> z1(boost::move(sh))', ('v2',))
m('unique_lock of another mutex type', LH, U, 'un = boost::move(pl)'); m('unique_lock of a mutex of another type', LH, U, 'boost::unique_lock<boost::mutex> z1(m)'); m('swap of locks of different mutex types', LH, U + 'un.swap(un);', 'un.swap(pl)'); m('unique_lock on a constant', LH, U, 'boost::unique_lock<boost::mutex> z1(static_cast<const boost::mutex&>(pm))')
m('upgrade_lock of a plain mutex', LH, U + 'ug.lock();', 'boost::upgrade_lock<boost::mutex> z1(pm)'); m('shared_lock of a plain mutex', LH, U + 'sh.lock();', 'boost::shared_lock<boost::mutex> z1(pm)')
m('upgrade_to_unique_lock of a unique_lock', LH, U, 'boost::upgrade_to_unique_lock<boost::upgrade_mutex> z1(un)'); m('lock_guard without a mutex', 'lock_guard mutex', 'boost::mutex m; boost::lock_guard<boost::mutex> g(m);', 'boost::lock_guard<boost::mutex> z1'); m('lock_guard of a temporary', 'lock_guard mutex', '', 'boost::lock_guard<boost::mutex> z1{boost::mutex{}}')
m('adopting without a mutex', LH, U, 'boost::unique_lock<boost::mutex> z1(boost::adopt_lock)'); m('implicit lock from a mutex', LH, U + 'struct F { static void f(boost::unique_lock<boost::mutex> const&) {} }; F::f(pl);', 'F::f(pm)'); m('implicit lock_guard from a mutex', 'lock_guard mutex', 'boost::mutex pm; struct F { static void f(boost::lock_guard<boost::mutex> const&) {} }; boost::lock_guard<boost::mutex> g(pm); F::f(g);', 'F::f(pm)')
E_ = 'boost::mutex m; boost::recursive_mutex r; boost::externally_locked<int, boost::mutex> e(m); int i; boost::externally_locked<int&, boost::mutex> er(i, m); const boost::externally_locked<int, boost::mutex> ec(m); boost::strict_lock<boost::mutex> sm(m); boost::strict_lock<boost::recursive_mutex> sr(r); boost::unique_lock<boost::mutex> ul(m); boost::unique_lock<boost::recursive_mutex> ulr(r); boost::lock_guard<boost::mutex> lg(m); boost::nested_strict_lock<boost::unique_lock<boost::mutex> > nm(ul); boost::nested_strict_lock<boost::unique_lock<boost::recursive_mutex> > nr(ulr); boost::upgrade_mutex um; boost::shared_lock<boost::upgrade_mutex> sl(um);'
EH = 'externally_locked strict_lock mutex recursive_mutex lock_guard lock_types shared_mutex'
for o, g in [('e', 'e.get(sm); e.get(nm);'), ('er', 'er.get(sm); er.get(nm);'), ('ec', 'ec.get(sm);')]:
    for bad, why in [('sr', 'a strict lock of another mutex type'), ('nr', 'a nested strict lock of another mutex type'), ('ul', 'a unique_lock that may be unlocked'), ('lg', 'a lock_guard'), ('m', 'the mutex itself'), ('sl', 'a shared lock'), ('', 'no lock at all')]:
        m(f'externally_locked ({o}) with {why}', EH, E_ + g, f'{o}.get({bad})')
m('externally locked value read as its type', EH, E_, 'int z1 = e'); m('externally locked constant changed', EH, E_, 'ec.get(sm) = 1'); m('strict lock that owns nothing', EH, E_, 'boost::strict_lock<boost::mutex> z1'); m('strict lock unlocked', EH, E_, 'sm.unlock()'); m('nested strict lock of a temporary', EH, E_, 'boost::nested_strict_lock<boost::unique_lock<boost::mutex> > z1{boost::unique_lock<boost::mutex>(m)}'); m('nested strict lock of a constant lock', EH, E_, 'boost::nested_strict_lock<boost::unique_lock<boost::mutex> > z1(static_cast<boost::unique_lock<boost::mutex> const&>(ul))')
m('reverse_lock of a mutex', 'reverse_lock mutex lock_types', 'boost::mutex m; boost::unique_lock<boost::mutex> l(m); boost::reverse_lock<boost::unique_lock<boost::mutex> > r(l);', 'boost::reverse_lock<boost::mutex> z1(m)')
m('notification of an empty condition set through a constant thread group', 'thread', 'boost::thread_group g; g.size();', 'static_cast<boost::thread_group const&>(g).join_all()')
m('promise set through a constant', 'future', 'boost::promise<int> p; p.set_value(1);', 'static_cast<boost::promise<int> const&>(p).set_value(1)')
m('unique future shared by copy', 'future', 'boost::promise<int> p; boost::BOOST_THREAD_FUTURE<int> f(p.get_future()); boost::shared_future<int> s(boost::move(f));', 'boost::shared_future<int> z1(f)')
m('shared future value changed by a reader', 'future', 'boost::promise<int> p; boost::shared_future<int> s(p.get_future()); int v = s.get(); (void)v;', 's.get() = 1', ('v5',))
m('thread taken over by copy', 'scoped_thread', 'boost::thread t; boost::scoped_thread<> s(boost::move(t));', 'boost::scoped_thread<> z1(t)'); m('strict scoped thread from a named thread', 'scoped_thread', 'boost::thread t; boost::strict_scoped_thread<> s(boost::move(t));', 'boost::strict_scoped_thread<> z1(t)'); m('thread guard of a temporary', 'thread_guard', 'boost::thread t; boost::thread_guard<> g(t);', 'boost::thread_guard<> z1{boost::thread()}')
SV = 'boost::synchronized_value<int> v(1); const boost::synchronized_value<int> cv(1); int g = v.get(); (void)g; *v = 2; v.synchronize();'
m('constant synchronized value changed', 'synchronized_value', SV, '*cv = 2'); m('constant synchronized value changed through a lock', 'synchronized_value', SV, '*cv.synchronize() = 2'); m('constant synchronized value changed through a unique lock', 'synchronized_value', SV + '*cv.unique_synchronize();', '*cv.unique_synchronize() = 2')

def progs():
    for d in T:
        base = d['what'] or d['name'].split(' (')[0]
        if base.startswith('boost::concurrent::queue_adaptor'): base = 'boost::queue_adaptor<boost::sync_queue<int> >'
        for c in d['cfgs']:
            pre = ''.join(f'#include <boost/thread/{h}.hpp>\n' for h in d['hdr'])
            if 'unique_future' in d['name']: base = d['name'].replace('unique_future', 'BOOST_THREAD_FUTURE')
            al = f'typedef {base} X;' if 'boost::basic_lockable_adapter' not in base and 'shared_lockable_adapter' not in base else 'typedef decltype(x) X;'
            ctl = 'X z(boost::move(x)); X w(boost::move(z)); w = boost::move(z);' if d['movable'] and d['assign'] else 'X z(boost::move(x));' if d['movable'] else ''
            kinds = [('copy constructed from a constant', 'X z1(static_cast<X const&>(x));'), ('copy constructed', 'X z1(x);'), ('copy initialised', 'X z1 = static_cast<X const&>(x);'),
                     ('copy assigned from a constant', 'x = static_cast<X const&>(x);'), ('copy assigned', 'x = x;')]
            if not d['movable'] and 'through a reference' not in d['name']: kinds += [('moved', 'X z1(boost::move(x));'), ('move assigned', 'x = boost::move(x);')]
            if 'through a reference' in d['name']: kinds = kinds[3:]
            kinds = [k for k in kinds if k[0] not in d['skip']]
            yield f"{d['name']} [{c}]", c, pre, d['setup'] + al + ctl, kinds
    for name, hdr, control, misuse, cfgs in M:
        for c in cfgs: yield f'{name} [{c}]', c, ''.join(f'#include <boost/thread/{h}.hpp>\n' for h in hdr), control, [('accepted', misuse + ';')]

def compile_(src, cfg, tmp, i):
    p = f'{tmp}/w{i}.cpp'; open(p, 'w').write(src)
    r = subprocess.run([CXX] + FLAGS + CFG[cfg] + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines, cur = set(), None
    for l in r.stderr.splitlines():            # a note belongs to the diagnostic before it
        q = l.split(':')
        if len(q) > 3 and q[0] == p:
            if 'error' in q[3] or 'note' in q[3]: lines.add(int(q[1]))
    return r.returncode, lines, r.stderr

def decide(job):
    i, (name, cfg, pre, control, kinds), tmp = job
    rc, _, err = compile_(f'#define X_ 1\n{pre}void control() {{ {control} }}\n', cfg, tmp, f'{i}c')
    if rc: return name, 'control', [('control', None, err[:1500])]
    src = '#define X_ 1\n' + pre; at = {}
    for k, (what, code) in enumerate(kinds):
        src += f'void misuse{k}() {{ {control}\n'; at[k] = src.count('\n') + 1; src += f'{code}\n}}\n'
    rc, lines, err = compile_(src, cfg, tmp, f'{i}m'); out = []
    for k, (what, code) in enumerate(kinds):
        ok = at[k] in lines; text = ''
        if not ok:                             # the same error is reported once per program: look at this misuse alone
            one = '#define X_ 1\n' + pre + f'void misuse() {{ {control}\n'; n = one.count('\n') + 1; one += f'{code}\n}}\n'
            rc1, l1, e1 = compile_(one, cfg, tmp, f'{i}m{k}'); ok = rc1 != 0 and n in l1; text = one if not rc1 else 'rejected for another reason:\n' + e1[:800] + '\n' + one
        out.append((what, ok, text if not ok else ''))
    return name, 'ok', out

def main():
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    stds = ['gnu++17'] if tier == 'quick' else ['gnu++17', 'gnu++11', 'gnu++20']
    tmp = tempfile.mkdtemp(prefix='c29.'); allp = list(progs()); viols = []; errs = []; n = controls = 0; samples = []
    try:
        for std in stds:
            FLAGS[1] = '-std=' + std
            with cf.ThreadPoolExecutor(8) as ex:
                for (name, st, out), prog in zip(ex.map(decide, [(f'{std}{i}', p, tmp) for i, p in enumerate(allp)]), allp):
                    if st == 'control': errs.append((name, out[0][2])); continue
                    controls += 1
                    for what, ok, text in out:
                        n += 1
                        if not ok: viols.append((name + ' ' + std, what, text, prog))
                    samples.append({'subject': name, 'standard': std, 'misuses_rejected': [w for w, ok, _ in out if ok]})
    finally: shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(f'{V}/replay', exist_ok=True)
    for old in glob.glob(f'{V}/replay/C29-*'): os.remove(old)
    for name, what, text, prog in viols:
        p = f'{V}/replay/C29-{hashlib.sha1((name + what).encode()).hexdigest()[:8]}.txt'
        open(p, 'w').write(f'property C29\nrule: this misuse must not compile\nsubject: {name}\nmisuse: {what}\nheaders: {prog[2]}\nprogram accepted by the compiler (or rejected for another reason):\n{text}\n')
        print(f'  {name}: {what}: compiles\n    declared in {" ".join(x.split("<")[1].split(">")[0] for x in prog[2].strip().splitlines())}\nVIOLATION property=C29 replay={p}')
    for name, e in errs: print('ANALYSIS ERROR: the control for', name, 'does not compile\n', e)
    ev = {'property': 'C29', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': 'Compile-fail witnesses: for every owning type each form of copying (and of moving, for types that cannot be moved), and for every lock-passing interface each wrong kind of lock, is a program the type checker must reject on the marked line, next to a control program that differs by that line only and must compile.',
                       'subjects': controls, 'obligations': n, 'discharged': n - len(viols), 'standards': stds, 'configurations': list(CFG), 'compiler': 'clang 18', 'samples': samples[:400]},
          'assumptions': ['clang 18 in the listed language modes decides what compiles'], 'violations': len(viols), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(f'{V}/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/C29.json', 'w'), indent=1)
    print(f'C29: {controls} subjects, {n} misuses, {len(viols)} violations, {len(errs)} controls failing, {ev["wall_s"]}s')
    return 1 if viols else 2 if errs else 0
sys.exit(main())
