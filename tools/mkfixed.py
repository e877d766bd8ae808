"""Record the fix: commits of /repo in known_findings.json (run by hand after adding one)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = """
da6c0e4 C31 2bd6c59 C31 a749648 C10 bb316a7 C10 4eaa9d5 C10 b475ae9 C10 c107fec C10 7555430 C11 2d7371d C03 9c0ecc7 C03 abbdebe C03 9b0739a C01 11daed9 C10 8bd2902 C04 956c0d0 C06
739811e C07 3bc6826 C08 7cfd736 C10 806ff07 C11 120cbbe C12 94d5dfc C21 b15196f C14 41dd050 C17 17e4b41 C20 01ff55d C19 e137e9a C19 322d9e0 C19 fb81bae C19 1743015 C19 ae58656 C19
7e4842a C21 1e9815b C23 db596f9 C23 f562a6f C24 4dfeddd C24 e6aa3b1 C26 4504d17 C26 3e4ac7c C26 46e7b00 C25 215e9d1 C38 13ab224 C25 8efec8c C24 8e37730 C25 e5f1d95 C27 c603f62 C27
d989072 C27 236d609 C27 218491d C27 4f44426 C27 86f728a C27 655f402 C28 4911a9a C28 a3d49f0 C26 70a015e C26 25b1779 C26 7e987b6 C26 d6d33e2 C26 a128c4f C26 dfb59d5 C26 6c122cb C29
9ecafe3 C29 673f776 C29 ed464ee C29 303ac70 C29 e49d0cc C29 0ba9dc0 C29 3d68bac C29 42f8a8c C30 9aea200 C30 3a47f45 C30 856dabb C30 5348a63 C32 7627c9a C32 2a32dc7 C32 682e6a5 C33
53e8ee4 C33 96e5f2c C33 fe8abd2 C33 63176d5 C34 153586e C34 9bca92f C34 1317158 C34 436d10f C34 79dc938 C34 b696ee3 C34 bc4fd5b C37 0e33214 C37 5779055 C35 299f029 C35 cf4253f C35
851eee0 C35 5cdd691 C35 654810b C39 b4d097a C39 db12226 C39 55e1a93 C35 182985c C35 51a26c3 C39 5bdf34c C39 10c83e3 C39 ac01ade C39 9528565 C39 345eaba C39 1ea08d5 C39 d49eb38 C39
a431dee C39 5f0c4b6 C35 83837b3 C39 6062d31 C39 916cf74 C39 7178a8b C39 f7634a8 C39 0b32bd7 C39 c688d02 C40 01c2e70 C40 b3a5a9b C40 9dd8629 C40 3a4aed7 C40 476699b C40 22b4f77 C40
eae0f15 C40 34080f1 C40 859a3db C40 0ee76e0 C40 7bcc6d4 C40 9cbda07 C40 27222ff C26 f163275 C19 24bf562 C21 f280f74 C19 6b5b23d C21 88a68ce C40 5a019ad C35 d942965 C22 a61f387 C41 81240c9 C41 8c0b318 C41 be8f41a C41 00a843c C41 0bebde3 C41 3598ad4 C41 b13faa2 C41 c6155cd C41 ec3cf2b C41 3812898 C41 09e47c2 C41
""".split()
PROP = dict(zip(PROP[::2], PROP[1::2]))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "b53ae75.."], text=True).splitlines()
out = []
for ln in log:
    h, s = ln.split(" ", 1)
    assert s.startswith("fix: "), s
    out.append("fixed: property=%s %s %s" % (PROP[h], h, s[5:]))
p = os.path.join(HERE, "known_findings.json")
k = json.load(open(p))
k["fixed"] = out
with open(p, "w") as f:
    f.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in k["findings"]) + '\n],\n"fixed": [\n' + ",\n".join(" " + json.dumps(x) for x in out) + "\n]}\n")
print(len(out), "fixed")
