"""Runner: build the MIR dump of /repo's working tree, decide one property, write the evidence."""
import signal
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

CHECKS = {
    'C05': ('c_parsers', 'c05'), 'C06': ('c_parsers', 'c06'), 'C08': ('c_parsers', 'c08'),
    'C07': ('c_insert', 'c07'),
    'C10': ('c_load', 'c10'), 'C11': ('c_load', 'c11'), 'C12': ('c_load', 'c12'), 'C13': ('c_load', 'c13'),
    'C14': ('c_deser', 'c14'),
    'C15': ('c_grammar', 'c15'), 'C16': ('c_grammar', 'c16'), 'C17': ('c_grammar', 'c17'),
    'C02': ('c_panic', 'c02'), 'C20': ('c_term', 'c20'),
    'C18': ('c_effect', 'c18'), 'C19': ('c_copy', 'c19'),
    'C21': ('c_order', 'c21'),
    'C24': ('c_syntax', 'c24'), 'C25': ('c_match', 'c25'), 'C26': ('c_match', 'c26'),
    'C22': ('c_load', 'c22'), 'C23': ('c_load', 'c23'),
    'C01': ('c_match', 'c01'), 'C03': ('c_match', 'c03'), 'C04': ('c_match', 'c04'), 'C09': ('c_match', 'c09'),
}

RULES = {
    'C01': 'Every panicking construct (bounds and char-boundary checks of slices and indices, unwrap / expect, arithmetic overflow asserts, explicit panics, RefCell borrows) on any path of Matcher::parse and Parser::parse, callees inlined, is an obligation: the facts of the path exclude it.',
    'C02': 'Every panicking construct in the functions reachable from compiling a pattern text, Matcher::add_pattern and the pattern-file loader is an obligation: no path, from the most general arguments the callers can give, reaches it. Cut points: the literal splitter is analysed under its callers\' contract, the common-prefix length under its own (a boundary of both texts), which are obligations too.',
    'C03': 'On every path of each matcher\'s parse (callees inlined, loops by fixpoint, recursive calls as summaries) that returns a match, the result is the pattern of an entry whose literal / parser accepted the head of the text with nothing left, or the match of that entry\'s own sub-tree against exactly the rest; every parser implementation returns a prefix of its input.',
    'C04': 'On every path of each matcher\'s parse that returns a match, the values of the result are those of the sub-match (or none) plus, exactly when the entry\'s parser has a name, the parsed text under that name.',
    'C05': 'On every path of SetParser::parse / IntParser::parse (and the limit and set helpers, inlined) the returned value is text[..longest run of set members], the path\'s conditions are exactly run > 0 and min <= chars(run) <= max for the limits present, and None is returned exactly when one of them fails; setters and constructors store what they are given; INT\'s set is the ten ASCII digits.',
    'C06': 'On every path of GreedyParser::parse: with an end string, the value is text[..first position of the end string] and None exactly when it does not occur; without, the value is all the text; the end string stored is the one given.',
    'C07': 'On every path of each matcher\'s add_pattern (look-up, split, insertion inlined or as verified summaries) the tree after the call is the tree before plus the new entry: all entries, patterns, sub-trees and their order kept; a split keeps both halves\' text, the sub-tree, the pattern and the value flag; the pattern with one token less goes to the entry of that token and is stored there only when no token is left.',
    'C08': 'hash_os of every parser hashes every field that parse or name() can observe plus a tag that differs per kind; both matchers reuse a parser entry only when these hashes are equal, and a new entry keeps the very parser it was given.',
    'C09': 'On every path of each matcher\'s parse that returns no match, every literal entry and every parser entry of the node is shown to have failed: a loop over all entries was exhausted and each round only goes on when its entry cannot match, or a binary search with the ordering comparator excludes the others.',
    'C10': 'For every fallible call on any path of the strict loader, the file reader and the decoders: if its error case is taken, the path returns an error (the same one, converted or wrapped); a matcher is returned only on paths where no error case was taken; the content decoded is the whole file.',
    'C11': 'On every path of the strict loader: the loop takes every item of the source; for each pattern it is added and then every test message is matched and checked (matched, same UUID, verdict on values and tags) before the next one; no branch leaves the loop or goes on without it, except by returning an error.',
    'C12': 'The verdict functions on values and tags are compared, path by path, with the specification: error iff an expected tag is not in the pattern\'s tags or an expected key has no or another value in the captured values laid over the pattern\'s values; membership and equality are exact.',
    'C13': 'On every path of the lenient loader: the loop takes every item, adds every pattern that was read whatever its test messages say, skips items that are errors, calls error! for every error case, and ends with Ok(matcher).',
    'C14': 'Abstract interpretation of the serde visitors: the recognised field names are exactly the documented ones, each name\'s value flows into the field with that meaning and no other, unknown names and absent mandatory fields end in an error, absent optional fields in the default; JSON and YAML go through the same visitors.',
    'C15': 'The generated parser is extracted into regular languages with marked positions (one per rule, per captured value): for every token of the reference grammar the set of texts on which that value is built equals, exactly (equivalence by derivatives), the reference set; the values flow into the parser constructors and the token sequence unchanged and in order.',
    'C16': 'The regular language of the texts the compiled parser accepts as a whole, extracted from the paths of its functions, is compared by derivatives with the language of the reference grammar; a text accepted outside it is reported as a shortest witness. Number conversions must fail on overflow and the entry point must require the end of the text.',
    'C17': 'unescape_literal is shown equal to replacing every \\%\\{ by %{ (or an equivalent scan), and every flow of a literal\'s text into a token or an end string passes through it exactly once.',
    'C18': 'Effect analysis over the resolved call graph from every Matcher::parse and Parser::parse: no reachable function, drop, callback or static does I/O, reads clock, environment, thread or randomness, writes through interior mutability, uses unsafe or iterates a hash container in an order-dependent way; the receiver is a shared reference.',
    'C19': 'Every Clone::clone and boxed_clone of the crate builds, on every path, a value equal to the original field by field and variant by variant, the clones of the parts being obligations of their own.',
    'C20': 'Every loop on any path of the functions reachable from Matcher::parse, Matcher::add_pattern, Parser::parse and the pattern compiler walks a finite sequence or makes strict progress towards a fixed bound on every round (positions, counters, intervals, sub-trees, shrinking lists; lexicographic); every recursive call is on a strict part of the receiver, on strictly less text or on a pattern with fewer tokens. Repetitions of the grammar cannot match the empty text.',
    'C21': 'The comparator of every look-up, the comparator of the ordered container and the position an entry is inserted at agree on one total preorder over first characters / literals on every path; insertion keeps the order invariant and nothing else writes the list; a look-up that misses a stored literal would need a pair ordered differently.',
    'C22': 'On every path that builds an error, its kind corresponds to the failed condition of the path and each field is fed by the value with that meaning; conversions keep the cause; Display formats each field, in its own place; missing-field errors name the absent field.',
    'C23': 'The paths of the format choice are enumerated: json -> JSON decoder; yaml, yml, YAML, YML -> YAML decoder; any other or no extension -> the unsupported-extension error; an extension that is not Unicode -> the not-UTF-8 error.',
    'C25': 'On every path of Matcher::parse that reports a match, the entries with precedence over the one taken were refuted: all literals before a parser, longer literals before shorter ones, parsers in front of it in the list; new parsers are put at the end of the list.',
    'C26': 'The rules of C03, C04, C07, C09, C21 and C25 determine the answer for a message from the patterns added; each matcher is checked against them by itself; a rule one of them breaks and the other keeps is a difference.',
    'C24': 'Noting a failure raises the furthest position or adds to its names, nothing else; on every path of every rule of the generated parser a failed test of the text is noted where it was made, under the name of what was looked for, and nothing else is noted; the entry reports that position and those names, and the line and column of that position: one more than the line breaks before it, one more than its distance from the last one.',
}

AI = 'static analysis: path-sensitive abstract interpretation (fixpoints over loops, summaries of recursive calls) of the MIR of the current tree'
TECH = {
    'C14': 'static analysis: abstract interpretation and dataflow of the serde visitors on MIR (name table, field flows, mandatory / optional / unknown)',
    'C15': 'static analysis: regular-language extraction from the MIR of the generated parser, exact language equivalence by derivatives, dataflow of captured values',
    'C16': 'static analysis: regular-language extraction from the MIR of the generated parser, exact language inclusion by derivatives',
    'C17': 'static analysis: dataflow on MIR (every literal passes the unescaping function once) and abstract interpretation of that function',
    'C25': 'static analysis: path-sensitive abstract interpretation of parse and add_pattern (refutation of the alternatives with precedence)',
    'C26': 'static analysis: refinement of one deterministic specification by both matchers, decided rule by rule by abstract interpretation',
    'C24': 'static analysis: path-sensitive abstract interpretation of the generated parser (failed tests against notes, character classes against their names)',
    'C18': 'static analysis: effect analysis over the resolved call graph, types and statics',
    'C19': 'static analysis: abstract interpretation of all Clone / boxed_clone implementations, field-by-field identity',
    'C20': 'static analysis: ranking of every loop (abstract interpretation) and structural decrease of every recursive call',
    'C21': 'static analysis: abstract interpretation of comparators, search and insertion against one order invariant',
    'C08': 'static analysis: dataflow (fields observable by parse / name against fields hashed) and abstract interpretation of the merging code',
    'C01': 'static analysis: reachability of panic sites under path facts (abstract interpretation of MIR)',
    'C02': 'static analysis: reachability of panic sites under path facts (abstract interpretation of MIR)',
}
NOTES = {}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def driver():
    exe = os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        env = dict(os.environ)
        for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'RUSTFLAGS'):
            env.pop(k, None)
        r = sh(['cargo', '+nightly', 'build', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=env)
        if r.returncode or not os.path.exists(exe):
            print(r.stdout[-3000:])
            raise SystemExit('cannot build the MIR dump driver')
    return exe


def dump(repo, out, tgt):
    exe = driver()
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'RUSTFLAGS'):
        env.pop(k, None)
    root = sh(['rustc', '+nightly', '--print', 'sysroot'], env=env).stdout.strip().splitlines()[-1]
    env.update(LD_LIBRARY_PATH=os.path.join(root, 'lib'), MIRDUMP_CRATE='actiondb', MIRDUMP_OUT=out,
               RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    r = sh(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=repo, env=env)
    if r.returncode or not os.path.exists(out):
        if not os.environ.get("VQUIET"):
            print(r.stdout[-4000:])
        raise SystemExit('cannot compile %s' % repo)


def findings():
    """known-findings.txt: 'finding: property=<id> key=<rule|construct> <text>' lines suppress exactly that construct"""
    res = {}
    f = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('finding: property='):
                head, _, text = line[len('finding: '):].strip().partition(' :: ')
                pid, _, key = head.partition(' key=')
                res.setdefault(pid.split('=')[1], {})[key] = text
    return res


class TooLong(Exception):
    pass


def too_long(*a):
    raise TooLong('time is up')


def decide(pid, dumpfile):
    from repo import Repo
    from check import Check
    mod, fn = CHECKS[pid]
    ck = Check(pid, Repo(dumpfile))
    try:
        getattr(importlib.import_module(mod), fn)(ck)
    except TooLong as x:
        ck.unk('all', pid, str(x))
    return ck


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        driver()
        return 0
    repo = os.environ.get('ACTIONDB_REPO', '/repo')
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, 'build'))
    # an analysis that does not come to an end is given up, group by group: what it leaves is undecided
    signal.signal(signal.SIGALRM, too_long)
    signal.setitimer(signal.ITIMER_REAL, 540, 20)
    try:
        out = os.path.join(tmp, 'mir.json')
        dump(repo, out, os.path.join(tmp, 'target'))
        ck = decide(pid, out)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        shutil.rmtree(tmp, ignore_errors=True)
    known = findings().get(pid, {})
    bad, seen_known = [], []
    for rule, construct, status, detail in ck.obs:
        if status == 'violated':
            key = '%s|%s' % (rule, construct)
            if key in known:
                seen_known.append(key)
            elif (rule, construct, detail) not in bad:
                bad.append((rule, construct, detail))
    n = len(ck.obs)
    held = sum(1 for o in ck.obs if o[2] == 'holds')
    und = [o for o in ck.obs if o[2] == 'undecided']
    per = {}
    for rule, c, s, d in ck.obs:
        per.setdefault(rule, {'holds': 0, 'violated': 0, 'undecided': 0})[s] += 1
    samples = []
    for rule in per:
        for o in ck.obs:
            if o[0] == rule:
                samples.append({'rule': o[0], 'construct': o[1], 'status': o[2], 'detail': o[3][:300]})
                break
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': RULES.get(pid, ''),
            'obligations': n, 'discharged': held, 'undecided': len(und), 'violated': n - held - len(und),
            'per_rule': per,
            'functions_analysed': len(ck.stats['functions']), 'functions': sorted(ck.stats['functions']),
            'paths': ck.stats['paths'], 'loops': ck.stats['loops'], 'call_sites': ck.stats['call_sites'],
            'undecided_list': [{'rule': o[0], 'construct': o[1], 'why': o[3][:300]} for o in und[:40]],
            'samples': samples,
        },
        'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(seen_known)):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
    if bad:
        rp = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for rule, c, d in bad:
                f.write('%s: %s\n    %s\n' % (rule, c, d))
        for rule, c, d in bad[:8]:
            print('%s: %s: %s' % (rule, c, d[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s: %d obligations, %d hold, %d undecided (%d functions, %d paths), %.1f s' % (
        pid, n, held, len(und), len(ck.stats['functions']), ck.stats['paths'], time.time() - t0))
    for o in und[:5]:
        print('  undecided: %s: %s: %s' % (o[0], o[1], o[3][:200]))
    return 0


if __name__ == '__main__':
    sys.exit(main())
