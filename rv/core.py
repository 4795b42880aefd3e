"""
Orchestration of one check: forks isolated workers that drive the real code under /repo, collects what the monitors
observed, matches violations against the known findings, and writes the evidence file.

A check module (checks/cNN.py) provides:
    PROPERTY, LEVEL, RULE          strings for the evidence file
    ASSUMPTIONS                    optional list of strings
    plan(tier) -> list of (scenario, number of cases, cases per worker process)
    case(ctx, scenario, i, rng)    one case; reports through ctx
    MINIMUM                        dict counter -> minimum value for the verdict "held" (else: inconclusive)
    PRELOAD                        optional list of modules imported once before forking
"""

import collections
import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import pathlib
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('RV_REPO', '/repo')
EVIDENCE = VERIF / 'evidence'
KNOWN_FINDINGS = VERIF / 'known_findings.txt'


class CaseAbort(Exception):
    """Raised by ctx.require to stop a case after a violation has been recorded."""


class HarnessError(Exception):
    """The harness could not set the case up (missing tool, ...). Never a verdict."""


def short(value, limit=400):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[: limit // 2] + ' ... ' + text[-limit // 2 :]


def digest(*parts) -> str:
    h = hashlib.sha1()
    for part in parts:
        h.update(part if isinstance(part, bytes) else repr(part).encode('utf-8', 'surrogatepass'))
        h.update(b'\0')
    return h.hexdigest()[:16]


class Context:
    """What a case sees. Records observations; every record is plain data and shipped to the parent as JSON."""

    def __init__(self, check, tier, seed, scenario, index, root):
        self.check = check
        self.tier = tier
        self.seed = seed
        self.scenario = scenario
        self.index = index
        self.root = str(root)
        self.counters = collections.Counter()
        self.distincts = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.about = ''  # Describes the current input; only shown with violations.
        self._dirs = 0

    # -- observations -----------------------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def distinct(self, *parts):
        """Registers one distinct non-trivial evaluated situation."""
        self.distincts.add(digest(*parts))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(short(obj, 600) if isinstance(obj, str) else json.loads(json.dumps(obj, default=repr)))

    def note(self, text):
        if len(self.notes) < 20:
            self.notes.append(short(text))

    # -- verdicts ---------------------------------------------------------------------------------------------------
    def fail(self, key, message, **detail):
        if len(self.violations) < 50:
            self.violations.append({
                'key': key,
                'message': short(message, 1500),
                'detail': {**({'about': short(self.about, 1500)} if self.about else {}), **{k: short(v, 1500) for k, v in detail.items()}},
                'scenario': self.scenario,
                'index': self.index,
                'seed': self.seed,
            })

    def check_that(self, condition, key, message, **detail):
        self.counters['oracle_checks'] += 1
        if not condition:
            self.fail(key, message() if callable(message) else message, **detail)
        return bool(condition)

    def equal(self, got, want, key, what='', **detail):
        self.counters['oracle_checks'] += 1
        if got != want:
            self.fail(key, f"{what}: got {short(got)}, expected {short(want)}", **detail)
            return False
        return True

    def require(self, condition, key, message, **detail):
        if not self.check_that(condition, key, message, **detail):
            raise CaseAbort()

    @contextlib.contextmanager
    def guard(self, key, what='', allow=()):
        """Any exception other than the allowed ones is a violation under the given key."""
        try:
            yield
        except CaseAbort:
            raise
        except HarnessError:
            raise
        except allow:
            pass
        except BaseException as exception:  # noqa
            if isinstance(exception, (KeyboardInterrupt, SystemExit)) and not allow:
                self.fail(key, f"{what}: raised {exception!r}", traceback=traceback.format_exc())
                return
            self.fail(key, f"{what}: raised {exception!r}", traceback=traceback.format_exc())

    # -- scratch ----------------------------------------------------------------------------------------------------
    def mkdir(self, name='d'):
        self._dirs += 1
        path = os.path.join(self.root, f"{name}{self._dirs}")
        os.makedirs(path)
        return path


# ---------------------------------------------------------------------------------------------------------------------
_reached = set()


def _start_function_monitor():
    """Records which functions of the repository were entered, as evidence of reach. Nearly free (one event each)."""
    try:
        mon = sys.monitoring
        mon.use_tool_id(5, 'rv')
    except Exception:
        return
    prefix = os.path.realpath(REPO) + '/'

    def started(code, _offset):
        if code.co_filename.startswith(prefix):
            _reached.add(f"{code.co_filename[len(prefix):]}:{code.co_qualname}")
        return mon.DISABLE

    mon.register_callback(5, mon.events.PY_START, started)
    mon.set_events(5, mon.events.PY_START)


def _through_repo(exception) -> bool:
    prefix = os.path.realpath(REPO) + '/'
    while exception is not None:
        tb = exception.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(prefix):
                return True
            tb = tb.tb_next
        exception = exception.__cause__ or exception.__context__
    return False


# Consistency checks inside rapidgzip's chunk fetcher that fail once in thousands of runs because of a race between its
# own threads. A case that meets one is repeated after all others, alone, and it counts only if it fails every time. So
# does a case that ends with a crash: the Python code under test cannot crash by itself, only the libraries it calls.
LIBRARY_RACES = ('[GzipChunkFetcher]',)
REPETITIONS = 3


def _run_case(module, tier, seed, scenario, index, root):
    harness = []
    caseRoot = os.path.join(root, f"case-{scenario}-{index}")
    shutil.rmtree(caseRoot, ignore_errors=True)
    os.makedirs(caseRoot)
    ctx = Context(module.PROPERTY, tier, seed, scenario, index, caseRoot)
    rng = random.Random(f"{module.PROPERTY}/{scenario}/{seed}/{index}")
    _vary_drive(index)
    try:
        module.case(ctx, scenario, index, rng)
    except CaseAbort:
        pass
    except HarnessError as exception:
        harness.append(f"{scenario}/{index}: {exception}")
    except BaseException as exception:  # noqa
        text = traceback.format_exc()
        if _through_repo(exception):
            ctx.fail(
                f"exception:{scenario}:{type(exception).__name__}",
                f"unexpected exception from the code under test: {exception!r}",
                traceback=text,
            )
        elif isinstance(exception, (AttributeError, TypeError, LookupError, ValueError, AssertionError)):
            # The code under test returned something of a shape that no oracle expects. Oracles do not do this on
            # the unchanged tree (all seeds that were swept), so it is a changed behaviour and not an accident.
            ctx.fail(
                f"unexpected-result:{scenario}:{type(exception).__name__}",
                f"a result of the code under test has an unexpected shape: {exception!r}",
                traceback=text,
            )
        else:
            harness.append(f"{scenario}/{index}: {text}")
    finally:
        with contextlib.suppress(Exception):
            os.chdir(root)
    if not os.environ.get('RV_KEEP'):
        shutil.rmtree(caseRoot, ignore_errors=True)
    return ctx, harness


def _run_chunk(module, tier, seed, scenario, indexes, root, outPath, final=True):
    """If not final, then cases with library races are only returned to be repeated."""
    result = {'counters': collections.Counter(), 'distincts': set(), 'samples': [], 'violations': [], 'notes': [],
              'harness': [], 'cases': 0, 'raced': []}
    progress = open(outPath + '.progress', 'w')
    for index in indexes:
        progress.seek(0)
        progress.write(f"{index}\n")
        progress.flush()
        started = time.monotonic()
        ctx, harness = _run_case(module, tier, seed, scenario, index, root)
        raced = any(text in violation['message'] for violation in ctx.violations for text in LIBRARY_RACES)
        if raced and not final:
            result['raced'].append(index)
            result['counters']['library_races_repeated'] += 1
            continue
        result['cases'] += not harness
        result['harness'] += harness
        if os.environ.get('RV_TIMES'):
            with open(os.environ['RV_TIMES'], 'a') as file:
                file.write(f"{time.monotonic() - started:.2f} {scenario}/{index} {ctx.about}\n")
        result['counters'].update(ctx.counters)
        result['distincts'] |= ctx.distincts
        result['samples'] += ctx.samples
        result['violations'] += ctx.violations
        result['notes'] += ctx.notes
    result['reached'] = sorted(_reached)
    result['distincts'] = sorted(result['distincts'])
    result['samples'] = result['samples'][:3]
    with open(outPath + '.tmp', 'w') as file:
        json.dump(result, file, default=repr)
    os.rename(outPath + '.tmp', outPath)


def _cpu_ticks(pid):
    """Total CPU ticks of a process (all threads)."""
    try:
        with open(f"/proc/{pid}/stat") as file:
            fields = file.read().rsplit(')', 1)[1].split()
        return int(fields[11]) + int(fields[12])
    except Exception:
        return None


def resident(pid):
    try:
        with open(f"/proc/{pid}/statm") as file:
            return int(file.read().split()[1]) * 4096
    except Exception:
        return 0


def _vary_drive(index):
    """
    Archives on rotating drives are read without parallelism. Let each third case be on such a drive independently of
    where the check runs.
    """
    module = sys.modules.get('ratarmountcore.compressions')
    if callable(getattr(module, 'is_on_slow_drive', None)):
        slow = index % 3 == 2
        module.is_on_slow_drive = lambda path: slow


class Job:
    def __init__(self, scenario, indexes, attempt=0):
        self.scenario, self.indexes, self.attempt = scenario, indexes, attempt


def run_check(checkId, tier, seed, replay=None, jobsLimit=None):
    started = time.time()
    module = importlib.import_module(f"checks.{checkId.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"rv-{checkId}-", dir='/tmp')
    os.chmod(scratch, 0o755)
    try:
        return _run_check(module, checkId, tier, seed, replay, scratch, started, jobsLimit)
    finally:
        if not os.environ.get('RV_KEEP'):
            shutil.rmtree(scratch, ignore_errors=True)


def _prepare_environment(scratch):
    home = os.path.join(scratch, 'home')
    tmp = os.path.join(scratch, 'tmp')
    os.makedirs(home)
    os.makedirs(tmp)
    os.environ.update(HOME=home, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
    for name in ('XDG_CACHE_HOME', 'XDG_CONFIG_HOME', 'RATARMOUNT_INDEX_TMPDIR'):
        os.environ.pop(name, None)
    time.tzset()
    tempfile.tempdir = None
    sys.dont_write_bytecode = True


def load_known(checkId):
    """Lines 'KNOWN property=<id> key=<key> <what>'. Lines 'fixed: ...' suppress nothing."""
    known = {}
    if KNOWN_FINDINGS.exists():
        for line in KNOWN_FINDINGS.read_text().splitlines():
            if line.startswith('KNOWN '):
                _, prop, key, what = line.split(' ', 3)
                if prop == f"property={checkId}":
                    known[key.removeprefix('key=')] = what
    return known


def _run_check(module, checkId, tier, seed, replay, scratch, started, jobsLimit):
    _prepare_environment(scratch)
    for name in getattr(module, 'PRELOAD', ['ratarmountcore.mountsource.factory']):
        importlib.import_module(name)
    if hasattr(module, 'setup'):
        module.setup(scratch, tier)

    wallLimit = getattr(module, 'WALL_LIMIT', 240)
    cpuLimit = getattr(module, 'CPU_LIMIT', 150)
    workers = getattr(module, 'WORKERS', None) or int(os.environ.get('RV_WORKERS', os.cpu_count() or 4))

    jobs = collections.deque()
    if replay is not None:
        jobs.append(Job(replay['scenario'], [replay['index']]))
        seed = replay['seed']
    else:
        perScenario = []
        for scenario, n, chunk in module.plan(tier):
            perScenario.append([Job(scenario, list(range(k, min(n, k + chunk)))) for k in range(0, n, chunk)])
        # Interleave scenarios so that a deadline cuts all of them alike.
        while any(perScenario):
            for queue in perScenario:
                if queue:
                    jobs.append(queue.pop(0))

    deadline = started + float(os.environ.get('RV_BUDGET', 600 if tier == 'quick' else 6 * 3600))
    total = {'counters': collections.Counter(), 'distincts': set(), 'samples': [], 'violations': [], 'notes': [],
             'harness': [], 'cases': 0, 'reached': set(), 'skipped': 0}
    samplesBy = {}
    running = {}
    exhausted = set()
    memoryLimit = getattr(module, 'MEMORY_LIMIT', 6 << 30)
    serial = 0
    sys.stdout.flush()
    sys.stderr.flush()
    late = collections.deque()  # repetitions, which run alone after everything else
    while jobs or running or late:
        while (jobs and len(running) < workers) or (late and not jobs and not running):
            job = jobs.popleft() if jobs else late.popleft()
            if time.time() > deadline and not job.attempt:
                total['skipped'] += 1
                continue
            serial += 1
            root = os.path.join(scratch, f"w{serial}")
            os.makedirs(os.path.join(root, 'tmp'))
            os.makedirs(os.path.join(root, 'home'))
            out = os.path.join(scratch, f"w{serial}.json")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    os.environ['TMPDIR'] = os.path.join(root, 'tmp')
                    os.environ['HOME'] = os.path.join(root, 'home')
                    tempfile.tempdir = None
                    os.chdir(root)
                    log = os.open(out + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
                    null = os.open('/dev/null', os.O_RDONLY)
                    os.dup2(null, 0)
                    os.dup2(log, 1)
                    os.dup2(log, 2)
                    os.close(log)
                    os.close(null)
                    sys.stdin = open(0, closefd=False)
                    faulthandler.enable(file=open(out + '.crash', 'w'))
                    faulthandler.register(signal.SIGUSR1, file=open(out + '.stacks', 'w'), all_threads=True)
                    resource.setrlimit(resource.RLIMIT_CPU, (cpuLimit, cpuLimit + 5))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    # No limit on the address space because the allocator of rapidgzip crashes with it.
                    _start_function_monitor()
                    _run_chunk(module, tier, seed, job.scenario, job.indexes, root, out, job.attempt >= REPETITIONS)
                except BaseException:  # noqa
                    traceback.print_exc()
                    code = 70
                finally:
                    with contextlib.suppress(Exception):
                        sys.stdout.flush()
                        sys.stderr.flush()
                    os._exit(code)
            with contextlib.suppress(OSError):
                os.setpgid(pid, pid)
            exhausted.discard(pid)
            running[pid] = [job, out, root, time.time(), None]

        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, entry in list(running.items()):
                job, out, root, t0, stall = entry[:5]
                if resident(p) > memoryLimit:
                    exhausted.add(p)
                    with contextlib.suppress(OSError):
                        os.killpg(p, signal.SIGKILL)
                elif now - t0 > wallLimit and not stall:
                    entry[4] = stall = (now, _cpu_ticks(p))
                    with contextlib.suppress(OSError):
                        os.kill(p, signal.SIGUSR1)
                elif stall and now - stall[0] > 20:
                    used = (_cpu_ticks(p) or 0) - (stall[1] or 0)
                    entry.append(used)
                    with contextlib.suppress(OSError):
                        os.killpg(p, signal.SIGKILL)
            time.sleep(0.01)
            continue
        if pid not in running:
            continue
        entry = running.pop(pid)
        job, out, root, t0 = entry[:4]
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)

        if os.path.exists(out):
            with open(out) as file:
                result = json.load(file)
            total['counters'].update(result['counters'])
            total['distincts'].update(result['distincts'])
            for item in result['samples']:
                if samplesBy.setdefault(job.scenario, 0) < 2:
                    samplesBy[job.scenario] += 1
                    total['samples'].append({'scenario': job.scenario, 'case': item})
            total['violations'] += result['violations']
            total['notes'] += result['notes']
            total['harness'] += result['harness']
            total['cases'] += result['cases']
            total['reached'].update(result['reached'])
            total['counters'][f"cases_{job.scenario}"] += result['cases']
            late.extend(Job(job.scenario, [index], attempt=job.attempt + 1) for index in result['raced'])
        else:
            # The worker died or hung: find the case it was in.
            index = job.indexes[0]
            with contextlib.suppress(Exception):
                index = int(open(out + '.progress').read().split()[0])
            stacks = ''
            for suffix in ('.crash', '.stacks', '.log'):
                with contextlib.suppress(Exception):
                    stacks += open(out + suffix, errors='replace').read()[-3000:]
            signalNumber = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            where = {'scenario': job.scenario, 'index': index, 'seed': seed}
            if pid in exhausted:
                kind = 'memory'
            elif len(entry) > 5:
                kind = 'hang-blocked' if entry[5] <= 20 else 'slow'
            elif signalNumber in (signal.SIGXCPU,):
                kind = 'hang-cpu'
            elif signalNumber in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                kind = 'crash-signal-%d' % signalNumber
            else:
                kind = 'died-%s' % (signalNumber or os.WEXITSTATUS(status) if not signalNumber else signalNumber)
            if kind in ('hang-blocked', 'hang-cpu', 'memory') or kind.startswith('crash-signal'):
                crashed = kind.startswith('crash-signal')
                if job.attempt < (REPETITIONS if crashed else 1):
                    # Confirm with the single case in isolation so that neither load nor the other cases matter.
                    total['notes'].append(f"{where}: {kind}, repeated in isolation: {short(stacks, 1500)}")
                    late.append(Job(job.scenario, [index], attempt=job.attempt + 1))
                    rest = [i for i in job.indexes if i > index]
                    if rest:
                        jobs.append(Job(job.scenario, rest, attempt=0))
                else:
                    total['violations'].append({
                        'key': f"{kind}:{job.scenario}",
                        'message': f"the process under test ended with {kind} in {job.attempt + 1} runs",
                        'detail': {'stacks': short(stacks, 4000)}, **where})
            else:
                total['harness'].append(f"{where}: {kind}: {stacks[-1500:]}")
        if os.environ.get('RV_VERBOSE'):
            with contextlib.suppress(Exception):
                sys.stderr.write(open(out + '.log', errors='replace').read()[-3000:])
        if not os.environ.get('RV_KEEP'):
            shutil.rmtree(root, ignore_errors=True)

    if hasattr(module, 'teardown'):
        module.teardown()

    # -- verdict ----------------------------------------------------------------------------------------------------
    known = load_known(checkId)
    seenKnown = collections.Counter()
    real = collections.OrderedDict()
    for violation in total['violations']:
        if violation['key'] in known:
            seenKnown[violation['key']] += 1
        else:
            real.setdefault(violation['key'], []).append(violation)

    EVIDENCE.mkdir(exist_ok=True)
    replayDir = EVIDENCE / 'replay'
    for key in sorted(seenKnown):
        print(f"KNOWN-FINDING: property={checkId} {known[key]} [key={key}, observed {seenKnown[key]} times]")
    if real:
        replayDir.mkdir(exist_ok=True)
        for n, (key, violations) in enumerate(real.items()):
            path = replayDir / f"{checkId}-{n}.json"
            path.write_text(json.dumps({'property': checkId, 'tier': tier, **violations[0],
                                        'occurrences': len(violations)}, indent=1))
            if n < 12:
                first = violations[0]
                print(f"  [{key}] x{len(violations)} {first['scenario']}/{first['index']}: {short(first['message'], 600)}")
                print(f"VIOLATION property={checkId} replay={path}")
                if 'stacks' in first['detail']:
                    print('    ' + short(first['detail']['stacks'], 3000).replace('\n', '\n    '))

    inconclusive = list(total['harness'])
    if replay is None:
        for counter, minimum in (getattr(module, 'MINIMUM', {}) or {}).items():
            if total['counters'].get(counter, 0) < minimum:
                inconclusive.append(f"monitor observed only {total['counters'].get(counter, 0)} {counter} (< {minimum})")
    if total['skipped']:
        total['notes'].append(f"{total['skipped']} job(s) skipped because the time budget was exhausted")

    wall = time.time() - started
    coverage = {
        'evaluations': total['cases'],
        'distinct_nontrivial': len(total['distincts']),
        'rule': module.RULE,
        'samples': total['samples'][:12] or ['none'],
        'observed': dict(sorted(total['counters'].items())),
        'repo_functions_reached': len(total['reached']),
        'repo_modules_reached': sorted({x.split(':')[0] for x in total['reached']}),
    }
    evidence = {
        'property': checkId,
        'tier': tier,
        'seed': seed,
        'level': module.LEVEL,
        'coverage': coverage,
        'wall_s': round(wall, 2),
        'violations': sum(len(v) for v in real.values()),
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'known_findings_observed': dict(seenKnown),
        'notes': total['notes'][:20],
        'inconclusive': [short(x) for x in inconclusive[:20]],
    }
    if replay is None:
        (EVIDENCE / f"{checkId}.json").write_text(json.dumps(evidence, indent=1))
    print(
        f"{checkId} {tier} seed={seed}: {total['cases']} cases, {len(total['distincts'])} distinct, "
        f"{total['counters'].get('oracle_checks', 0)} oracle checks, {len(total['reached'])} repo functions, "
        f"{sum(len(v) for v in real.values())} violations, {sum(seenKnown.values())} known, {wall:.1f} s"
    )
    if real:
        return 1
    if inconclusive:
        for text in inconclusive[:10]:
            print("INCONCLUSIVE:", short(text, 1800))
        return 3
    return 0
