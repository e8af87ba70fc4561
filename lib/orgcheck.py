"C17, C18, C19: what OrgSystems.tla says about organisational systems and book orders, against the real classes"
import vt, tables as T, json
_S = {}
def bos(n, fresh=False):
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystem
    if fresh or n not in _S: _S[n] = BibleOrganisationalSystem(n)
    return _S[n]
def boss():
    from BibleOrgSys.Reference.BibleOrganisationalSystems import BibleOrganisationalSystems
    return BibleOrganisationalSystems().loadData()
def osys(n):
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystem
    if ('o', n) not in _S: _S['o', n] = BibleBookOrderSystem(n)
    return _S['o', n]
def orders():
    from BibleOrgSys.Reference.BibleBookOrders import BibleBookOrderSystems
    return BibleBookOrderSystems().loadData()
def none(x): return None if x == 'none' else x
def tlc(chk, mode, mq=0, num=1, seed=None):
    gen = {'data.json': json.dumps(T.data('org'))}
    return chk.tlc('OrgSystems', f'SPECIFICATION OSpec\nCONSTANTS\n Mode = "{mode}"\n MaxQ = {mq}\n Emit = TRUE\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n', mode='sim' if mq else 'bfs', num=num, depth=mq + 2, seed=seed, gen=gen)
def ask(f, *a, **k):
    try: return f(*a, **k)
    except KeyError: return 'refused'
    except Exception as e: return repr(e)
class Diff:
    def __init__(self, name): self.name, self.bad = name, []
    def eq(self, what, got, want):
        if got != want: self.bad.append(('answer', f'{self.name} {what}: code {str(got)[:300]}, specification {str(want)[:300]}', {'key': f'{self.name} {what}'}))
