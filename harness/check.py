"""Entry point:  check.py <property>   (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

WHERE = {"C22": "checks_api", "C23": "checks_api", "C01": "checks_parser", "C02": "checks_parser", "C03": "checks_parser", "C04": "checks_parser", "C05": "checks_parser",
         "C18": "checks_tools", "C19": "checks_tools", "C20": "checks_tools", "C21": "checks_tools", "C15": "checks_load", "C16": "checks_load", "C17": "checks_load",
         "C06": "checks_handler", "C07": "checks_sections", "C08": "checks_sections", "C09": "checks_sections",
         "C10": "checks_cmds", "C11": "checks_cmds", "C12": "checks_cmds", "C13": "checks_cmds", "C14": "checks_cmds"}

def main():
    prop = sys.argv[1]
    c = vlib.Check(prop)
    mod = importlib.import_module(WHERE[prop])
    try:
        getattr(mod, prop.lower())(c)
    except vlib.MachineryError:
        raise
    except Exception as e:
        # raised by the code under test where no exception is specified?
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        part = text.split('"""')[1] if 'RemoteTraceback' in text else text
        where = re.findall(r'File "([^"]*)", line', part)
        if not (where and os.path.realpath(where[-1]).startswith(os.path.realpath(vlib.REPO) + os.sep)):
            raise
        c.violation("exception from %s: %r" % (where[-1], e), {"traceback": text}, key="exception")
    return c.finish()

if __name__ == "__main__":
    try:
        rc = main()
    except vlib.MachineryError as e:
        print("machinery error: %s" % e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
