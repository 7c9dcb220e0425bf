"""setup_cmd: verifies the tools. Checks build what they need from /repo's current tree themselves."""
import shutil
import sys


def main():
    import z3
    print("z3", z3.get_version_string(), "python", sys.version.split()[0])
    missing = [tool for tool in ("java", "javac") if not shutil.which(tool)]
    if missing:
        print("missing:", ", ".join(missing))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
