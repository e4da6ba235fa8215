"""Author-side tool: rewrites the "fixed:" lines of KNOWN_FINDINGS.txt from /repo's history."""
import subprocess

BASE = "0d25e62"
PROP = dict(
    f81c999="C15", **{"93836e4": "C15", "8d8a9b2": "C15", "5817614": "C18", "2de5e92": "C20",
                      "56630f5": "C07", "23a5893": "C16", "2d08e0a": "C31", "37208bb": "C25",
                      "9d6e81d": "C05", "39a08ab": "C10", "61f8f4a": "C14", "523ba62": "C19",
                      "8dc137c": "C19", "92e6d4b": "C12", "9afcd90": "C32", "590d6fe": "C32",
                      "6e3c087": "C20", "7a756c2": "C09", "66ce817": "C16", "ee1db3b": "C12",
                      "dffbe9f": "C12", "a660445": "C12", "d835bec": "C17", "fb8697f": "C17",
                      "cdfbfa8": "C19", "2cd1ba2": "C25", "4ae09c8": "C29", "c32c4f7": "C28",
                      "7c24aed": "C31", "38fde3c": "C30", "7d6cf92": "C32", "407e45e": "C32",
                      "2d3bbf3": "C35", "c2404bc": "C36", "f93d4ef": "C37", "cf306ef": "C37",
                      "ce51b99": "C38", "485b7b3": "C38", "948c52d": "C38", "8edf94f": "C14",
                      "944a259": "C14", "015e4e8": "C13", "9fcf29c": "C13",
                      "4eaacd2": "C14", "0530817": "C41"})


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s",
                          BASE + "..HEAD"], capture_output=True, text=True).stdout
    lines = [x for x in open("/verif/KNOWN_FINDINGS.txt") if not x.startswith("fixed:")]
    for x in log.splitlines():
        h, s = x.split(" ", 1)
        if s.startswith("fix: ") and PROP[h[:7]]:
            lines.append(f"fixed: property={PROP[h[:7]]} {h} {s[5:]}\n")
    open("/verif/KNOWN_FINDINGS.txt", "w").writelines(lines)


if __name__ == "__main__":
    main()
