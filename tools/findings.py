"""Writes known_findings.json: open findings (KNOWN below) and the list of repaired defects."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(x.split("=") for x in """154ab6e=M02 2f74b16=M02 718dad1=M01 02d6008=M04 05c6e39=M04 9215717=M03 a0c9957=M03 70ea496=C03 d202a85=C05 f14069f=C08
151fe22=C05 265a677=C05 a7f5870=C07 947a1b4=C07 eb0bcf4=C01 5d38c6c=C02 1147ed1=C03 0276687=C01 dbc10a8=C09 047d80b=D01 ea4e991=B01 28b95d8=B01 de3abea=W01
23c50ba=R01 371ab2f=R01 b127639=W02 8da199d=W02 566a5a0=E05 4e0c615=E05 ef55cad=E04 557c767=E03 099fbc1=E03 aa92240=E05 8a0c568=C10 a4b92e2=C10 aa2987b=C01 db62383=C03 a716e16=H01 fc5ad52=C10 aa5d861=C07 446a8c3=W03 fc4af9e=W03 ef5c61b=W03 efe96b6=W03 0b143f5=W03 8c78200=W03 3e9a2ae=E01 d4264e1=W03 92ded87=E04 8b1e1d4=E01 daf65b8=E04 0a65f6c=E02 79bb360=E03 4b84343=E01 869e884=E05 8d38623=E03 99dd224=E04 d18fd21=E04 55d2113=E04 8f5f452=E05 e8a0657=E04 639ac5e=E04 9e2caf8=S01 40e2faf=S01 39c8a74=S01 cb37b9d=S01 0967a2d=S01 3f1ee01=C05 6bdd868=U01 dedd0cd=S01 763e944=M01 cea5bf2=W03 5737de1=C04 54f433c=C05 aa4a6a0=M01 d628967=C04 040e894=C04 a5530b3=C04 0995525=C05 b0d38af=C09 d35c21d=M02 fe49030=E03 6001e66=E01 f2ec9c6=H01 ed87123=M05 eef10df=E05 7ec6f17=E05 32fe2b1=E05 cd4487b=E05 c37850d=E01 1dfc20a=E05 3f5220b=W03 50b9398=C03 6abe7f3=C03 6bf1288=M04""".split())
KNOWN = []
exec(open(os.path.join(ROOT, "tools", "known.py")).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "965d368..HEAD"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    assert s.startswith("fix: "), line
    fixed.append(f"fixed: property={MAP[h]} {h} {s[5:]}")
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": fixed}, f, indent=1)
    f.write("\n")
