import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

LEVEL = {'C01': 'translation_validation', 'C02': 'translation_validation'}


def main():
    prop = sys.argv[1]
    rep = common.Report(prop, LEVEL.get(prop, 'other'))
    import registry
    try:
        registry.CHECKS[prop](rep)
        if not common.VARIANT and not rep.viol and common.profile_dependent(): common.other_profile(rep, prop)
    except common.CheckError as e:
        print('ERROR %s: %s' % (prop, e)); return 2
    except Exception:
        # a construct the analysis does not understand: what was decided so far stands, the rest is undecided
        traceback.print_exc()
        if os.environ.get('PR_STRICT'): print('ERROR %s: internal error of the analysis' % prop); return 2
        rep.undecided('the analysis stopped at a construct it does not understand: ' + traceback.format_exc().strip().split('\n')[-1])
    return rep.finish()


sys.exit(main())
