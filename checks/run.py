#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--scale X]"""
import argparse, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from core import Result, run_lgmon, build, finish, Inconclusive

# property -> parts (flavour, monitor, quick cases, thorough cases), needed non-trivial cases, rule
TABLE = {
 'C01': ([('plain', 'single', 150000, 2000000), ('asan', 'single', 8000, 60000), ('plain', 'big', 160, 4000), ('asan', 'big', 16, 200)], 2000,
         'a case is a random pattern (alternations, greedy/lazy repetitions, classes, bytes, escapes, Unicode; 7 encodings; 7 determinization depths) searched in 5 random texts made of its matches, prefixes and near misses; non-trivial: the reference predicts at least one hit; counted distinct by pattern and hits; big cases: programs of up to 66,000 words or of patterns with matches of hundreds of kilobytes, hits worked out from the text directly'),
 'C02': ([('plain', 'multi', 50000, 600000), ('asan', 'multi', 3000, 20000), ('plain', 'big', 160, 4000, dict(start=1000000)), ('plain', 'huge', 16, 100)], 1000,
         'a case is a set of 2-14 related patterns (shared prefixes, extensions, duplicates, mixed encodings) searched in 4 texts, compared with each pattern compiled alone; non-trivial: at least two keywords have hits; big cases: programs of 30 to 4000 (thorough: 66,000) words, hits worked out by looking up every substring'),
 'C03': ([('plain', 'chunk', 30000, 300000), ('asan', 'chunk', 2000, 10000), ('plain', 'bigcut', 160, 4000), ('asan', 'bigcut', 16, 200)], 1000,
         'a case is a pattern set and 2 texts, each searched whole and in many cuttings (every two-way cut of short texts, single bytes, empty buffers, random); non-trivial: the text has hits; distinct by set, text and cutting; big cases: texts of up to 400 kB with long matches and thousands of patterns, cut at sizes around 256, 4096 and 65536'),
 'C04': ([('plain', 'depth', 15000, 300000), ('asan', 'depth', 1200, 10000), ('plain', 'bigdepth', 80, 2000)], 1000,
         'a case is a pattern set compiled at up to 10 determinization depths and searched in 6 texts; non-trivial: the text has hits; big cases: the same at two other depths'),
 'C05': ([('plain', 'serial', 40000, 300000), ('asan', 'serial', 5000, 20000), ('plain', 'bigserial', 160, 4000), ('asan', 'bigserial', 24, 200), ('plain', 'hugeserial', 8, 60)], 1000,
         'a case is a pattern set whose program is written, read back, written again, compared and searched with; truncations are offered to lg_read_program; non-trivial: a text with hits searched with both programs; big cases: programs of up to thousands of patterns'),
 'C06': ([('plain', 'trace', 60000, 800000), ('asan', 'trace', 4000, 20000)], 1000,
         'a case is a pattern set and 3 streams; an online monitor checks every hit as it is delivered; non-trivial: a trace with at least two hits'),
 'C07': ([('plain', 'ret', 45000, 500000), ('asan', 'ret', 4000, 20000)], 1000,
         'a case is a pattern set and 4 streams: returned offsets are checked against later hits, and search+resolve at 4 cut points against the whole search; non-trivial: an open start at a buffer end, or hits completed by resolve'),
 'C08': ([('plain', 'starts', 80000, 800000), ('asan', 'starts', 6000, 30000)], 1000,
         'a case is a pattern set and 6 short buffers; expected result from the reference matcher anchored at the first byte; non-trivial: at least one anchored match'),
 'C09': ([('plain', 'reuse', 60000, 300000), ('asan', 'reuse', 4000, 15000)], 1000,
         'a case is a random history of 40 operations (search, closeout, reset, starts_with, abandon) over 1-3 contexts of one program, each completed search compared with a fresh context; non-trivial: it has hits'),
 'C10': ([('plain', 'enc', 24000, 300000), ('plain', 'names', 400, 4000), ('asan', 'enc', 500, 6000)], 2000,
         'a case is an encoding (each of the 185 in turn, under its canonical name or an alias, with byte transformations) and either up to 6 literal strings searched in a text of their encodings, or a class judged anchored on every byte, on byte pairs and on encodings of members and non-members; expected bytes from ICU converters driven directly; non-trivial: hits expected, or a class judged'),
 'C14': ([('plain', 'window', 150000, 3000000), ('asan', 'window', 16000, 120000)], 5000,
         'a case is a buffer of valid and junk bytes, a hit window and context sizes; every element of the result is checked against an own decoder, and the leading context against the best over all start positions; non-trivial: non-empty buffer'),
 'C15': ([('plain', 'round', 24000, 300000), ('asan', 'round', 600, 8000)], 2000,
         'a case is a fixed string in one of the 185 encodings with byte transformations; every hit in an encoded text is decoded through the hit-context API and compared with the pattern text and, where decoding is unambiguous, the surrounding characters; non-trivial: each hit decoded'),
 'C11': ([('plain', 'class', 7000, 200000), ('asan', 'class', 120, 4000)], 1000,
         'a case is a random bracket expression or class escape (ranges, nested classes, set operators, properties, named characters, negation) compiled and probed with the encodings of members, non-members and every boundary; one case in six probes every Unicode scalar value; non-trivial: class with members and non-members; distinct by class text'),
 'C12': ([('plain', 'case', 22000, 500000), ('plain', 'switches', 4500, 100000), ('plain', 'caseset', 2500, 60000), ('asan', 'case', 500, 8000), ('asan', 'switches', 120, 3000)], 1000,
         'a case is a pattern with case-insensitive and Unicode-mode options or inline switches, probed with case variants and near misses of its matches; expected membership by full case folding per character; non-trivial: text with hits'),
 'C13': ([('plain', 'literal', 150000, 2000000), ('asan', 'literal', 5000, 60000)], 1000,
         'a case is a literal string of arbitrary characters, compiled as a fixed string, with every metacharacter escaped, or written in escape forms (octal, hex, named, control), searched in texts holding it and near misses; also unbalanced/brace texts taken literally; non-trivial: text with hits'),
 'C16': ([('asan', 'hostile', 10000, 200000), ('plain', 'hostile', 12000, 400000), ('asan', 'window', 1000, 20000), ('plain', 'long', 8, 8)], 5000,
         'a case is up to 6 hostile patterns (token soup, mutations, raw bytes, bracket soup, deep nesting, long runs, invalid and truncated UTF-8) in valid and hostile encodings, lists, failed parses on reused handles, a program, its serialization, several searches at hostile offsets and cuttings, hit decoding and destruction in different orders, under ASan, UBSan and LSan; non-trivial: each pattern; distinct by pattern'),
 'C17': ([('plain', 'errors', 14000, 300000), ('plain', 'list', 8000, 200000), ('asan', 'errors', 800, 15000), ('asan', 'list', 800, 15000)], 5000,
         'a case is a history of parsing (zero-terminated or slices, fresh or reused handles, with and without error pointers) and adding, judged by an own recognizer of the pattern syntax and by known encodings, or a pattern list with its defaults compared line by line with adding individually; non-trivial: each pattern judged, each list with a line'),
 'C18': ([('plain', 'incr', 25000, 200000), ('asan', 'incr', 2500, 10000)], 500,
         'a case is a random history of adding good and bad patterns to one FSM with programs compiled in between; every program is compared with a fresh build of the patterns added before it; non-trivial: several programs from one FSM, text with hits'),
 'C19': ([('tsan', 'threads', 24, 96, dict(cold=1, start=1000000)), ('plain', 'threads', 64, 200, dict(cold=1, start=2000000)), ('tsan', 'threads', 90, 4000), ('plain', 'threads', 1000, 60000)], 400,
         'a case is 1-3 shared programs (one in three read back from a buffer) and 3-6 threads that each run 3-8 operations (searches with several contexts, starts-with, creating and destroying contexts, compiling patterns in 13 encodings, decoding hits, describing and serializing the shared program, lists, encoding names) with random pauses, compared with the same scripts run by one thread; some cases run in fresh processes with the threads first, so that lazily created tables are raced for; ThreadSanitizer watches part of the cases; non-trivial: threads that switched between operations at least as often as there are threads; distinct by order of operations'),
 'C27': ([('plain', 'costsearch', 1200, 60000), ('plain', 'coststream', 700, 40000), ('plain', 'costcompile', 88, 2200), ('plain', 'costdecode', 432, 14400)], 1000,
         'a case is a pattern set (a third ambiguous on purpose) searched in texts of 8 to 512 bytes, its memory and time held to a bound on states times live starts; a set of bounded patterns searched in a stream and one 16 times as long, and a context used 60 times; a family of pattern sets compiled at a size and four times that; or a hit context decoded in a window and one 16 times as large, in 18 encodings; memory counted in operator new and delete, time as CPU time of the thread; non-trivial: memory taken, hits found, sets compiled, windows decoded'),
}

def lgmon_check(prop, tier, seed, scale, t0):
    parts, need, rule = TABLE[prop]
    for fl in sorted(set(p[0] for p in parts)):
        build(fl, 'lgmon')
    res = Result()
    for fl, sub, q, th, *kw in parts:
        n = max(8, int((q if tier == 'quick' else th) * scale))
        t = time.time()
        kw = dict(kw[0]) if kw else {}
        if kw.pop('cold', 0): kw['nshard'] = n    # every case in a process of its own
        run_lgmon(res, fl, sub, n, seed, tier == 'thorough', **kw)
        core.log('%s %s %d cases %.1f s' % (fl, sub, n, time.time() - t))
        if len(res.violations) >= 5: break
    return finish(prop, res, tier, seed, 'exploration', rule, t0, need=int(need * min(1, scale)) or 1)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1)); ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    t0 = time.time()
    try:
        if a.prop in TABLE: rc = lgmon_check(a.prop, a.tier, a.seed, a.scale, t0)
        else:
            import special
            rc = special.CHECKS[a.prop](a.tier, a.seed, a.scale, t0)
    except Inconclusive as e:
        print('INCONCLUSIVE: %s' % e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 3
    sys.stdout.flush(); os._exit(rc)
main()
