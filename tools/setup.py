import z3, os, subprocess
os.makedirs("/verif/evidence", exist_ok=True); os.makedirs("/verif/replays", exist_ok=True)
print("z3", z3.get_version_string(), subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
