"""Nothing to install: checks that the tools the analyses need are present."""
import subprocess, sys
for t in (["/usr/bin/clang-18", "--version"], ["/usr/bin/opt-18", "--version"], ["go", "version"]):
    subprocess.run(t, stdout=subprocess.DEVNULL, check=True)
