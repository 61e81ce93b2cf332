doc = r'''# Solver-based checking of go-bbs

@@NPROPS@@ properties (`properties.jsonl`, C01–C37) are decided by symbolic execution of the real code of `/repo` with an
SMT solver. None is left as not applicable. This file says how, within which bounds, what is assumed, and what was found.

## 1. The machinery

`check.sh ID TIER` builds `engine/` when its sources are newer than the binary and runs `bin/verif check`.
Every run does this:

1. **Overlay.** The current Go sources of `/repo` (never tests) are read, and a scratch copy is made in a temporary
   directory. In it, uses of packages that reach the outside world are rewritten, selector by selector, to the packages
   of `shim/` (table below). Only selectors a shim defines are rewritten, so types and constants stay the originals.
   The harnesses of `harness/<dir>` go to `<dir>/zz_*.go`; harnesses of exported behaviour live in packages of
   their own (`harness/zzh/...`), the few that need package internals (`pttbbs`, `pttbbs/internal/fnv`, `serverlet`,
   `cmd/bbstool`) in the package. A harness file which does not compile against the present sources (an internal name was
   renamed) is dropped and reported; the others still run.
2. **SSA.** `golang.org/x/tools/go/ssa` turns the copy, its dependencies and the standard library sources into SSA.
   Everything is regenerated from the working tree on each run; no model of go-bbs code exists anywhere.
3. **Symbolic execution** (`exec.go`, `state.go`, `value.go`): bit-precise machine integers, strings and slices of
   symbolic bytes with concrete shapes or symbolic lengths, pointers, maps, interfaces, closures, defer/recover/panic,
   `reflect`-free standard library code. Out-of-range indices, nil dereferences, failed assertions of types, divisions by
   zero are panics of the executed program. Paths fork where the solver says both sides are possible and are merged
   again after conditionals where that is possible (if-conversion of side-effect free and store-only regions).
4. **Cases.** A harness may enumerate shapes (`vrt.Case`: lengths, fault positions, operations); the contents stay
   symbolic. The cases are the shards that eight workers execute; the deciding step for every one is the solver's verdict
   over all contents.
5. **Assertions.** `vrt.Assert(c, label)` is discharged when `path condition ∧ ¬c` is unsatisfiable. Simple queries go
   to one incremental z3 process (`z3-new`), hard ones to a portfolio of z3 and cvc5 in parallel; a disagreement of the two
   stops the check. Timeouts, unsupported instructions and loops beyond the limit end up as `outside_the_claim` in the
   evidence and never count as discharged.
6. **Replay.** A counterexample is a valuation of the inputs. It is replayed natively: the same harness is compiled by the
   ordinary Go compiler against the same sources, with the shims in native mode (scratch directory, real file system
   calls, real standard library), and only a replay which fails the same assertion is reported
   (`VIOLATION property=.. replay=..`, the replay file holds the valuation). A counterexample which the real
   code does not show is reported as an engine mismatch in the evidence and on stdout, not as a violation. Beyond that,
   every check replays samples of its *passing* paths and compares the observed values (`replayed N` in the output), so that
   a wrong encoding is noticed also when it hides a violation.
7. **Evidence** (`evidence/<id>.json`): functions encoded, bounds, number of cases, paths, obligations, queries, solver time,
   everything left outside.

Budgets: quick 480 s per check (150 s per harness job), thorough 2700 s (900 s per job).

### Shims (the environment, `shim/`)

| replaced | by | model |
|---|---|---|
| `os`, `io/ioutil` | vos | a file system of nodes with contents; hooks before each call (fault, interference by another process), short/failed reads and writes, descriptor count, advisory locks per open file |
| `syscall.Flock` | vsyscall | the lock table of vos: exclusive/shared, released on close, actor that holds it |
| `golang.org/x/sys/unix` | vunix | file mappings as views of vos files, System V segments in a table, faults |
| `time.Now`, `math/rand`, `log` | vtime, vrand, vlog | harness-given clock and draws; log.Fatal is a process exit |
| `fmt.Print*`/`Fprint*` to stdout/stderr, `flag` | vfmt, vflag | record what is printed; flags given by the harness |
| `encoding/json`, `net/http` requests/responses, `golang-jwt` | vjson, vhttp, vjwt | JSON values as trees; recorder; a token is the pair (claims, key) |
| `crypt.Fcrypt` (callers only) | vcrypt | C19: the hash as an uninterpreted function; elsewhere the real one |
| reflective parts of `fmt`, `errors`, `strconv`, `sort.Slice` | vstd | plain Go models, executed symbolically |
| `golang.org/x/text` Big5 | engine | the real tables are tabulated natively and lifted to a function of the symbolic bytes (one byte pair at a time) |
| `regexp` | engine (`regex.go`) | the real `regexp/syntax` program, executed as an automaton with leftmost-first priorities over symbolic ASCII bytes |

Native mode of each shim is the real thing, so the replay of samples also validates the models.

### Canonical forms (`sweep.go`, C18)

DES crypt is twenty-five encryptions of sixteen rounds: the two sides, implementation and textbook reference, are
150 000 gates each; the solvers do not finish on the whole. The equivalence is decided with lemmas instead:
terms are translated to AND and XOR gates; each gate gets a form = exclusive-or of atoms, an atom being an input bit or a
truth table over at most eight forms; every truth table that is used is proved by z3 to be what the gates below it compute
for every value of the table's arguments (a few thousand different lemmas per case, memoised); exclusive-ors are compared as sets.
A root whose form is constant false is an unsatisfiable query. A root that is not is attacked with random simulation, whose
hits are genuine models (they are evaluated on the original terms and then replayed); if none is found the query is unknown.

## 2. The properties

"Quick / thorough" bounds are those of the harness sources (`vrt.Bound(q,t)`); the number at the end is the time of the quick check.
Texts for regular expressions and converters are bytes 0..127 plus explicit multi-byte samples; otherwise bytes are 0..255.

### Record layouts

| id | what is asserted, against which oracle | bounds | s |
|---|---|---|---|
| C01 | `Userec`: every field is read from and written to its place; the oracle is an independent field table (offset, width, kind) of pttbbs' `userec_t`; encode∘decode is the identity modulo bytes behind NULs; length is 512 | all 512 bytes symbolic (text bytes one case of ASCII, one of Big5 pairs) | 12 |
| C02 | `BoardHeader`, 256 bytes, as C01; texts too long never write outside their field | all bytes symbolic | 7 |
| C03 | `FileHeader`, 128 bytes, incl. mode and the money/vote-limit/anonymous union; setters | all bytes symbolic | 7 |
| C04 | `Userinfo`, 3484 bytes | all bytes symbolic | 6 |
| C28 | FormosaBBS header, 248 bytes, decode only | all bytes symbolic | 6 |
| C06 | each board attribute and user setting equals its own documented bit; moderators list and limits | all 32 bit flag words; names ≤ 12 | 5 |
| C05 | favorites: tree within the bound is read as stored, re-encodes to the same bytes; truncated, inconsistent and arbitrary files give an error and never a panic | ≤ 2 (3) items per level, 2 levels; cut at each byte; ≤ 20 (40) arbitrary bytes behind all header count classes | 31 |
| C07 | login histories: times, users, hosts, kinds; malformed lines; order; read failures | ids 1–12, hosts 0–15, line cut or corrupted at every byte, files ≤ 2 (3) lines | 9 |

### Files

| id | what is asserted | bounds | s |
|---|---|---|---|
| C08 | append keeps every byte, adds exactly the record, reports each failure; with another process' append before any system call | prior content 0–4 sizes, fault/short write/interference at each call | 8 |
| C09 | update replaces exactly the record's bytes | 1–3 (6) records + odd tail, index inside/outside, faults at each call | 7 |
| C10 | removal drops exactly that record; index of no record changes nothing | 0–3 (6) records, index −2..5 (8), faults at each of 14 calls | 10 |
| C11 | readers return exactly the records, in order, or an error; terminate; close the file | five formats, 0–2 (4) records + partial one, short/failing read at any position | 5 |
| C31 | new board and article records: what was given at its place, padded, every other byte zero (times never set too), appended behind unchanged records, reads back; missing or wrongly typed arguments are errors; the zero account and online record are zeros | ids 1–12, titles 0–6 (48, 64), owners and names ≤ 3, 0–2 records before with arbitrary bytes | 5 |
| C12 | write, append, read, delete of articles and drafts; failures reported | any sequence of 3 (4) operations of contents of 0–3 bytes; fault at each call | 5 |
| C13 | new article names are unique, well-formed and exclusive; errno faults end the call | 0–2 (3) existing names, all 4096 draws symbolic, another writer steals a name | 4 |
| C14 | every path is the documented one; different identifiers never share a path; caller's slices untouched | identifiers ≤ 4 (12) chars, treasure depth ≤ 2 (4) | 4 |
| C29 | two writers of one file: the result is that of one of the serial orders *of the real code* on a copy; the lock is released, also after a fault; nobody waits for himself | board records (append/remove), article records (append/update), articles (write/append), 0–3 (5) records; the second writer runs whole at any system call of the first (roles symmetric) | 5 |

### The facade and indices

| id | what is asserted | bounds | s |
|---|---|---|---|
| C15 | each read method returns what the driver gave for the path the driver named; each write reaches it unchanged; each error surfaces; missing capabilities are errors | recording driver, failing at every call; symbolic arguments | 15 |
| C16 | articles of a user: oracle is the filter over all boards but `ALLPOST` in order | 0–2 (3) boards × 0–2 articles, ids symbolic, also beginning or ending with `ALLPOST`; symbolic file names, owners, titles | 30 |
| C17 | comments: oracle is an independent line parser (no regular expressions) | line prefixes/texts up to 7 (13) free characters around the colon and time; all dates; articles of ≤ 3 (4) lines of seven kinds, incl. a 70 000 byte line | 28 |
| C23 | ANSI filtering: oracle is a hand-written scanner for the supported form; no escape → unchanged; colour codes in each position of a comment do not matter | free text ≤ 4 (5), sequences ≤ 6 (8) after the introducer, parameters ≤ 7 (9) digits with every placement of `;` | 38 |
| C27 | favorites name the boards they point to | ≤ 2 (3) boards, trees as C05 | 16 |
| C30 | drivers and data sources are passed through; home directory is derived as documented | names/sources ≤ 6 (12) symbolic characters, 2 handles | 5 |

| C32 | the whole: `bbs.Open("pttbbs", home)` and histories of its write methods against an abstract model of boards, article lists, texts and drafts; articles and comments of a user; files standing at their documented places | histories of ≤ 3 (4) operations, two boards, two drafts, symbolic titles, owners, contents; ≤ 1 (2) articles per board with ≤ 1 (2) comments by one of three users; ≤ 2 (3) records | 13 |
| C35 | two databases open on two homes, or twice on one, with writes through either in any order; all content of both read back | 1 (2) writes after the second is opened, 0–1 before; 2 (3) on one home | 6 |
| C36 | each write operation with the process gone from its k-th system call on (a persistent stop; a write may be torn); what is left compared with what was there | every call up to the 24th, torn at 0, 1, half, all but one byte; ≤ 3 (5) records | 6 |
| C37 | thirteen read operations: read, read again with a failing call, read once more; file system and results compared | every single file missing, all, none; 6 (12) fault positions | 5 |

### Large inputs

Besides the small shapes with free contents, the harnesses `H…Large` and `H…Long` take inputs larger than any buffer, counter or
page in the code: record files of 140–600 (2 800) records, articles and drafts of 511–70 000 bytes, articles of 99–300 (1 100)
comments behind up to 70 000 bytes of text, 300 boards × 3 articles and 1 × 700, favorites of 1 024 boards, 255 folders, 255 lines
or 64 levels, login histories of 1 200 lines, 300 accounts, homes of 700 boards and 300 users, removal, update and crash at
indices around powers of two. Their content is a fixed pattern with a few symbolic bytes at the first, the middle and the last item:
the structure is explored for one input of each size, the contents of the marked items for all values.

### Passwords, hashes, text

| id | what is asserted | bounds | s |
|---|---|---|---|
| C18 | `Fcrypt` = DES crypt: the reference in the harness is FIPS 46-3 straight from the tables of the standard, with the salt swapping of E; 11 characters and the salt | passwords of 0..10 bytes, every byte 0..255, every salt; salts of length ≠ 2 (0–4) and bytes outside | 200 |
| C19 | `VerifyPasswd` accepts iff hash(password, stored salt) = stored, with the hash abstracted as an uninterpreted function (the solver must find it right for every function), and with the real hash on samples | passwords ≤ 8, stored values ≤ 13, every byte | 5 |
| C20 | FNV-1a: reference loop; splits, seeds, reset, marshalled state | ≤ 24 (96) bytes, any split into three | 4 |
| C22 | ASCII unchanged by both converters, code pairs and the basic plane round-trip, C strings | every lead/trail pair and code point (one symbolic byte each), ASCII ≤ 40 (130), long texts to 4 200 (20 000) concrete around symbolic characters | 23 |

### Shared memory, server, tool

| id | what is asserted | bounds | s |
|---|---|---|---|
| C21 | each accessor of the cache reads the entry at the place an independent layout of `SHM_t` gives; entries do not overlap; no panic outside | three (seven) size settings × alignments 0,1,2,4,8 × cool-down; index any int | 12 |
| C26 | connection strings: the backend and location opened are those named; errors else; nothing created | strings ≤ 8 (12) symbolic characters; keys as decimal numbers up to beyond 32 bits; faults at each call | 6 |
| C33 | memory made at a file or key: zeroed, of the size, shared, outlives closing, removal removes it only; failures reported, nothing left mapped; status record as large as the kernel's | sizes −1..6 (20), position and bytes symbolic, any two keys, fault at each call | 7 |
| C34 | `main` itself, on a home in the model; requests through the handler it starts: boards in order, users' information, errors elsewhere, no crash | ≤ 3 (5) boards, ≤ 2 (4) users, either file missing; ten path bases + ≤ 3 (5) symbolic characters, twelve methods | 5 |
| C24 | token iff account and password match; claims; other methods, missing fields; user information is the requested user's; no path or Authorization header crashes | ≤ 2 accounts, names and passwords ≤ 2 (3) symbolic bytes; two clocks | 56 |
| C25 | the tool prints the data asked for or the error of the database, asks for missing options, does nothing without them, never crashes | nine commands × failure of each database call × driver with/without capabilities; argument lists of ≤ 3 (4) words; values symbolic | 9 |

**Outside** all of these: contents beyond the stated lengths; goroutines (no code of the repository starts one outside the
HTTP server; C08, C13, C29 model other *processes* at system-call granularity); for crash points, writes reaching the page
cache and the disk; Big5-UAO characters other than those of the library tables; the `serverlet` token permission stub
(`permissions.go` returns nil by design at this commit; C24 claims only what its statement says); real System V segments
(replays use the table as well); timing.

## 3. What was found

@@NFIX@@ defects were repaired in `/repo` (one `fix:` commit each); `KNOWN_FINDINGS` lists them with their property. None is
left unrepaired, so no KNOWN-FINDING line is printed. The heaviest: file locks that lock nothing (C29), endless loops on failing
reads (C11) and when no article file can be created (C13), article writes that keep the previous tail (C12), records that lose
fields when rewritten (C01, C03, C04), tokens that expire in 1970 (C24), favorites counters that wrap (C05), index accesses outside the
shared memory (C21), very long lines that hide the comments behind them (C17).

False alarms met on the way, corrected in the machinery: appending to an article that another writer is only just creating
(C29; the statement now speaks of existing articles in that respect and the harness assumes one), titles that are not ASCII in
the C02/C03 round trips (Big5 has codes that map to one character; compared in decoded form), `sort.Slice` order of equal
elements (modelled as unspecified), and engine mismatches, each of which was an engine defect and is fixed.

## 4. Planted bugs

`seeded/<id>/` (made by `tools/seed.py`, tried by `tools/tryseed.sh`); each compiles, passes the existing tests, and has a
demonstration on the real code.

@@SEEDS@@

Behaviour-preserving edits tried against all checks (must stay quiet): comments, no-op statements, extracted helpers,
loops rewritten, renamed internals, reordered statements; see section 5.

## 5. Robustness

* In-package harnesses are one file per property; if a private name they use disappears, only that file is dropped (reported in the
  evidence), not the check.
* Judgement is by observable results (bytes in files, values returned, errors) — no assertion refers to source text, to the number of
  system calls, or to error wording beyond "an error".
* Refactorings that use another standard function are executed as SSA like everything else; what is not supported shows up as
  `outside_the_claim`, with exit status 0 as long as something was explored.
* The cases of a check's harnesses are scheduled fairly: the next one comes from the harness that has used the least time, so a
  change that makes one harness explode does not starve the others of the run.
* A candidate whose native replay ends in a memory fault of the code (unexpected fault address) counts as a violation; a replay that
  merely disagrees with the engine does not, and is reported as a mismatch outside the claim.
* Two sets of behaviour-preserving refactorings (helpers extracted, loops rewritten, statements reordered, other standard functions
  used) were applied over all the files the planted bugs touch; every check stayed quiet on them.
'''
import json,os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
nprops={31:'Thirty-one',32:'Thirty-two',33:'Thirty-three',34:'Thirty-four',35:'Thirty-five',36:'Thirty-six'}.get(sum(1 for _ in open(root+'/properties.jsonl'))) or str(sum(1 for _ in open(root+'/properties.jsonl')))
nfix=str(sum(l.startswith('fixed:') for l in open(root+'/KNOWN_FINDINGS')))
rows=["| seed | property | needs | caught by |","|---|---|---|---|"]
caught=json.load(open(root+'/tools/caught.json')) if os.path.exists(root+'/tools/caught.json') else {}
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/%s/meta.json'%d))
    rows.append("| %s | %s | %s | %s |"%(d,m['property'],m['needs'].replace('|','/').replace('\n',' '),caught.get(d,'?')))
open(root+'/DESIGN.md','w').write(doc.replace('@@SEEDS@@','\n'.join(rows)).replace('@@NPROPS@@',nprops).replace('@@NFIX@@',nfix))
