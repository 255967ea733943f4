"""prints the table of planted bugs for DESIGN.md"""
import json, os
R = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | caught by | what it breaks |\n|---|---|---|")
for i in sorted(os.listdir(R)):
    m = json.load(open(f"{R}/{i}/meta.json"))
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} |")
