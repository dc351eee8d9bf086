"""known_findings.json: the findings that are not repaired, and the repairs.
   /opt/venv/bin/python tools/known.py (reads the log of /repo)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
    ("custom solid_angle", "C02"), ("slit width", "C03"), ("attenuate each foreground", "C03"),
    ("no foregrounds", "C03"), ("ForceChannelWlEdge", "C01"), ("skipped targets", "C18"),
    ("plots are requested", "C19"), ("payload file when", "C19"), ("zodiacal factor when", "C04"),
    ("sparsely sampled", "C12"), ("custom noise as a function", "C07"), ("repeated keywords", "C14"),
    ("hold no text", "C14"), ("from an HDF5 file name", "C14"), ("strings, units and ordered", "C16"),
    ("observe with a payload loaded", "C17"), ("sky transmission of a target", "C18"),
    ("without changing the input", "C20"), ("observe a target again", "C18"), ("working resolution", "C18"),
    ("channel wavelengths to micron", "C21"), ("tabulated wavelengths, source", "C21"),
    ("comma decimals", "C15"), ("lists without planets", "C15"), ("wavelength range of an optical", "C01"),
    ("search for ever", "C10"), ("all given in pixels", "C20"), ("nearest to the target on", "C04"),
    ("luminosity of custom", "C06"), ("smaller than the first radius", "C10"), ("in the sampling of the PSF", "C10"),
    ("no ConfigPath", "C14"), ("items of different sizes", "C16"), ("tables without quantities", "C16"),
    ("names hold a dot", "C16"), ("values missing in a target list", "C15"), ("only one of the coordinates", "C04"),
    ("whole change log", "C24"), ("debug messages on screen", "C25"),
    ("wavelength column indicated", "C01"), ("payloads that have only one", "C20"), ("no mass or temperature", "C06"),
    ("version of the code in the output", "C26"), ("new versions in the repository", "C24"),
    ("not plain ASCII", "C24"), ("change log cannot be reached", "C24"),
    ("worktrees and detached", "C26"), ("version of the code in the help", "C26"),
    ("targets observed before", "C19"), ("messages asked for again", "C25"), ("tasks without inputs", "C22"), ("timeout of other connections", "C24"),
    ("wait for ever for the change log", "C24"), ("only versions newer", "C24"), ("lists of texts whole", "C16"),
    ("stellar models of any metallicity", "C06"), ("signs of regular expressions", "C15"),
    ("fill with zeros the columns missing", "C20"), ("without the final slash", "C10"),
    ("only has the word in its name", "C07"), ("custom noise that cannot be read", "C07"),
    ("pixels of slits", "C03"), ("whole the reads", "C08"), ("pixels of channels", "C09"),
    ("ranges of targets as documented", "C23"), ("written with blanks", "C15"), ("output of an earlier call", "C22"),
    ("common elements that have the name", "C01"), ("custom noises that have the same name", "C07"),
    ("only the columns that hold them", "C23"), ("foregrounds estimated again", "C18"), ("fractions given in percent", "C21"), ("refuse a well depth", "C27"), ("PSF files that are not there", "C27"), ("slits wider", "C03"), ("single bin of tabulated", "C09"), ("channels that end with one", "C09"), ("metadata given with lists", "C16"), ("along their own", "C10"), ("pixels are not given in micron", "C10"),
    ("signals of one time", "C13"),
]


def main():
    log = subprocess.check_output(
        ["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True
    ).splitlines()
    fixed = []
    for l in log:
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        p = [p for k, p in PROP if k in s]
        assert len(p) == 1, (s, p)
        fixed.append("fixed: property=%s %s %s" % (p[0], h, s[4:].strip()))
    path = os.path.join(HERE, "known_findings.json")
    try:
        findings = json.load(open(path))["findings"]
    except FileNotFoundError:
        findings = []
    with open(path, "w") as f:
        json.dump({"findings": findings, "fixed": fixed}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
