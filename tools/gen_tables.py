import re,glob,os,json
p='/verif/DESIGN.md'
s=open(p).read()
B='''## 2b. Stored forms and copying

**C07 stored form** (6 s). *Analysed*: `put`, the storing of results, `push_data`, the sends down to the calls of
MPI, the stores and the serialization, interpreted with a heap in which the buffers of an object are mutable
cells that pickling hands out by reference (as out-of-band buffers are). *Enumerated*: three ways of
storing × eight objects (0–3 buffers, large and small, nested) × all sequences of up to three of {send to one,
send to another, blocking send, read}, with the original changed after it is stored; non-blocking sends are
read by the receiver at the very end. *Oracle*: what each receiver decodes is what was stored. Decoding is
repeated (rule `decode`), and the views of shared memory given to the decoder must be read-only (`readonly`).
*Why not tests*: an alias only shows when the original changes between two uses. *Bounds*: three steps
after storing; libraries as modelled. Whether a send in flight of *inline arguments* (never stored) sees
later changes is outside the statement.

**C22 copying** (1 s). *Analysed*: `memory.cpp` through clang's syntax tree (JSON), interpreted over
polynomials in the length, the number of threads and the index of the thread; `_memory.pyx` parsed for what the
wrappers pass; the Python writers and readers over the model of shared memory. *Oracle*: the pieces
cover [0, n) exactly once, every thread is joined, nothing outside is touched, fill sets every element;
what is read back are the ranges that were written. A claim is refuted by instantiating the closed forms; otherwise
it is undecided. *Bounds*: the arithmetic is exact over the integers (overflow of `size_t` is not considered).

'''
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
S="| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"
rows=[]
for f in sorted(glob.glob('/verif/tools/corpus/*.txt')):
    t=open(f).read()
    b=len(re.findall(r'^=== \S+ bug',t,re.M)); k=len(re.findall(r'^=== \S+ (?:ok|same)',t,re.M))
    rows.append(f"| {os.path.basename(f)[:-4].upper()} | {b} | {k} |")
Cc="| corpus | bugs | edits that change nothing |\n|---|---|---|\n"+"\n".join(rows)+"\n\nAll neutral edits are quiet, and all bugs are caught except two of YY: yy-c05-pymp-many (waiting in pymp forgets references beyond the sixth: C05 enumerates three references) and yy-c09-drop (only the first of several out-of-band buffers is kept with its request: C09 does not tell the buffers of one object apart). A trigger that depends on a size beyond the enumerated ones is out of the bounds of the checks.\n"
if '@@2B@@' in s:
    s=s.replace('@@2B@@\n',B).replace('@@SEEDS@@','<!--S-->\n'+S+'<!--/S-->').replace('@@CORPORA@@','<!--C-->\n'+Cc+'<!--/C-->')
    s=s.replace("Nothing is installed; the tools","Nothing is installed; clang++ 18 supplies the syntax tree for C22; the tools")
else:
    s=re.sub(r'<!--S-->.*?<!--/S-->',lambda m:'<!--S-->\n'+S+'<!--/S-->',s,flags=re.S)
    s=re.sub(r'<!--C-->.*?<!--/C-->',lambda m:'<!--C-->\n'+Cc+'<!--/C-->',s,flags=re.S)
open(p,'w').write(s)
