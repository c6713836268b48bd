"""What the process classes describe: the particles on the four legs and the tree-level vertices between them.

The table is frozen; everything else follows from the quantum numbers.
"""
import re

LEGS = {
    'AAWW': 'A A W+ W-',
    'AAdd': 'A A d D',
    'AAee': 'A A e E',
    'AAuu': 'A A u U',
    'AWAW': 'A W+ A W+',
    'AWWh': 'A W+ W+ h',
    'AWZW': 'A W+ Z W+',
    'AWud': 'A W+ u D',
    'AZWW': 'A Z W+ W-',
    'AZdd': 'A Z d D',
    'AZee': 'A Z e E',
    'AZuu': 'A Z u U',
    'AdZd': 'A d Z d',
    'AeZe': 'A e Z e',
    'AhWW': 'A h W+ W-',
    'AnWe': 'A ne W+ e',
    'AuZu': 'A u Z u',
    'WWWW': 'W+ W+ W+ W+',
    'WWWW2': 'W+ W- W+ W-',
    'WdWd': 'W+ d W+ d',
    'WdZu': 'W+ d Z u',
    'ZWWh': 'Z W+ W+ h',
    'ZWZW': 'Z W+ Z W+',
    'ZZWW': 'Z Z W+ W-',
    'ZZZZ': 'Z Z Z Z',
    'ZhWW': 'Z h W+ W-',
    'ZnWe': 'Z ne W+ e',
    'dAAd': 'd A A d',
    'dAdh': 'd A d h',
    'dAgd': 'd A g d',
    'dWgu': 'd W+ g u',
    'dZZd': 'd Z Z d',
    'dZdh': 'd Z d h',
    'ddAA': 'd D A A',
    'ddAh': 'd D A h',
    'ddWW': 'D d W+ W-',
    'ddZZ': 'd D Z Z',
    'ddZh': 'd D Z h',
    'dddd': 'd D d D',
    'dddd2': 'd d d d',
    'ddee': 'd D e E',
    'ddhh': 'd D h h',
    'ddnn': 'd D ne Ne',
    'ddss': 'd D s S',
    'deed': 'd e e d',
    'dgdh': 'd g d h',
    'dggd': 'D g g D',
    'dhdh': 'd h d h',
    'dnnd': 'd nm nm d',
    'dsds': 'd s d s',
    'eAAe': 'e A A e',
    'eAeh': 'e A e h',
    'eWWe': 'e W+ W+ e',
    'eZZe': 'e Z Z e',
    'eZeh': 'e Z e h',
    'eeAA': 'e E A A',
    'eeAZ': 'e E A Z',
    'eeAh': 'e E A h',
    'eeWW': 'e E W+ W-',
    'eeZZ': 'e E Z Z',
    'eeZh': 'e E Z h',
    'eeee': 'e E e E',
    'eeee2': 'e e e e',
    'eeeeQED': 'e E e E',
    'eehh': 'e E h h',
    'eemm': 'e E m M',
    'eemmQED': 'e E m M',
    'eenene': 'e E ne Ne',
    'eenmnm': 'e E nm Nm',
    'eheh': 'e h e h',
    'emem': 'e m e m',
    'enAW': 'E ne A W+',
    'enWh': 'E ne W+ h',
    'enZW': 'E ne Z W+',
    'enenee': 'e ne ne e',
    'enmenm': 'e nm e nm',
    'gAdd': 'g A d D',
    'gAuu': 'g A u U',
    'gWud': 'g W+ u D',
    'gZdd': 'g Z d D',
    'gZuu': 'g Z u U',
    'gdZd': 'g d Z d',
    'ggdd': 'g g d D',
    'gggg': 'g g g g',
    'gguu': 'g g u U',
    'guAu': 'g u A u',
    'guZu': 'g u Z u',
    'gugu': 'g u g u',
    'hWWh': 'h W+ W+ h',
    'hZZh': 'h Z Z h',
    'hgdd': 'h g d D',
    'hguu': 'h g u U',
    'hhWW': 'h h W+ W-',
    'hhZZ': 'h h Z Z',
    'hhhh': 'h h h h',
    'hnWe': 'h ne W+ e',
    'menn': 'M e ne Nm',
    'mnen': 'm ne e nm',
    'nWWn': 'ne W+ W+ ne',
    'nZZn': 'ne Z Z ne',
    'nZnh': 'ne Z ne h',
    'nenenene': 'ne Ne ne Ne',
    'nenenene2': 'ne ne ne ne',
    'nenenmnm': 'ne Ne nm Nm',
    'nenmnenm': 'ne nm ne nm',
    'nnWW': 'ne Ne W+ W-',
    'nnZZ': 'ne Ne Z Z',
    'nnZh': 'ne Ne Z h',
    'uAAu': 'u A A u',
    'uAuh': 'u A u h',
    'uWWu': 'u W+ W+ u',
    'uZZu': 'u Z Z u',
    'uZuh': 'u Z u h',
    'ubdt': 'u b d t',
    'ucuc': 'u c u c',
    'udAW': 'U d A W-',
    'udWh': 'u D W+ h',
    'udZW': 'U d Z W-',
    'udnl': 'u D nl L',
    'udtb': 'u D t B',
    'udud': 'u d u d',
    'ueeu': 'u e e u',
    'uguh': 'u g u h',
    'uhWd': 'u h W+ d',
    'uhuh': 'u h u h',
    'ulnd': 'u l nl d',
    'unnu': 'u nm nm u',
    'usus': 'u s u s',
    'uuAA': 'u U A A',
    'uuAh': 'u U A h',
    'uuWW': 'u U W+ W-',
    'uuZZ': 'u U Z Z',
    'uuZh': 'u U Z h',
    'uucc': 'u U c C',
    'uudd': 'u U d D',
    'uuee': 'u U e E',
    'uuhh': 'u U h h',
    'uunn': 'u U ne Ne',
    'uuss': 'u U s S',
    'uuuu': 'u U u U',
    'uuuu2': 'u u u u',
}

# names of the parameters of constructor and mass update, by position
PARAMS = {
    'AAWW': ('echarge massW sinW widthW', 'massW'),
    'AAdd': ('echarge massd', 'massd'),
    'AAee': ('echarge masse', 'masse'),
    'AAuu': ('echarge massu', 'massu'),
    'AWAW': ('echarge massW sinW widthW', 'massW'),
    'AWWh': ('echarge massh massW sinW widthW', 'massh massW'),
    'AWZW': ('echarge massW sinW widthW', 'massW'),
    'AWud': ('echarge massu massd massW sinW widthW', 'massu massd massW'),
    'AZWW': ('echarge massW sinW widthW', 'massW'),
    'AZdd': ('echarge massd massW sinW', 'massd massW'),
    'AZee': ('echarge masse massW sinW', 'masse massW'),
    'AZuu': ('echarge massu massW sinW', 'massu massW'),
    'AdZd': ('echarge massd massW sinW', 'massd massW'),
    'AeZe': ('echarge masse massW sinW', 'masse massW'),
    'AhWW': ('echarge massh massW sinW widthW', 'massh massW'),
    'AnWe': ('echarge masse massW sinW widthW', 'masse massW'),
    'AuZu': ('echarge massu massW sinW', 'massu massW'),
    'WWWW': ('echarge massh widthh massW widthZ sinW', 'massh massW'),
    'WWWW2': ('echarge massh widthh massW widthZ sinW', 'massh massW'),
    'WdWd': ('echarge massd massu massh widthh massW sinW widthZ', 'massd massu massh massW'),
    'WdZu': ('echarge massu massd massW sinW widthW', 'massu massd massW'),
    'ZWWh': ('echarge massh massW sinW widthW widthZ', 'massh massW'),
    'ZWZW': ('echarge massh widthh massW widthW sinW', 'massh massW'),
    'ZZWW': ('echarge massh widthh massW widthW sinW', 'massh massW'),
    'ZZZZ': ('echarge massh widthh massW sinW', 'massh massW'),
    'ZhWW': ('echarge massh massW sinW widthW widthZ', 'massh massW'),
    'ZnWe': ('echarge masse massW sinW widthW', 'masse massW'),
    'dAAd': ('echarge massd', 'massd'),
    'dAdh': ('echarge massd massh massW sinW', 'massd massh massW'),
    'dAgd': ('echarge gscharge massd', 'massd'),
    'dWgu': ('echarge gscharge massu massd massW sinW', 'massu massd massW'),
    'dZZd': ('echarge massf massh widthh massW sinW widthZ', 'massf massh massW'),
    'dZdh': ('echarge massd massh widthh massW sinW widthZ', 'massd massh massW'),
    'ddAA': ('echarge massd', 'massd'),
    'ddAh': ('echarge massd massh massW sinW', 'massd massh massW'),
    'ddWW': ('echarge massd massu massh widthh massW sinW widthZ', 'massd massu massh massW'),
    'ddZZ': ('echarge massf massh widthh massW sinW widthZ', 'massf massh massW'),
    'ddZh': ('echarge massd massh widthh massW sinW widthZ', 'massd massh massW'),
    'dddd': ('echarge gscharge massd massh widthh massW sinW widthZ', 'massd massh massW'),
    'dddd2': ('echarge gscharge massd massh widthh massW sinW widthZ', 'massd massh massW'),
    'ddee': ('echarge massd masse massh widthh massW sinW widthZ', 'massd masse massh massW'),
    'ddhh': ('echarge massd massh widthh massW sinW', 'massd massh massW'),
    'ddnn': ('echarge massd massW sinW widthZ', 'massd massW'),
    'ddss': ('echarge gscharge massd masss massh widthh massW sinW widthZ', 'massd masss massh massW'),
    'deed': ('echarge massd masse massh widthh massW sinW widthZ', 'massd masse massh massW'),
    'dgdh': ('echarge gscharge massd massh massW sinW', 'massd massh massW'),
    'dggd': ('gcharge massd', 'massd'),
    'dhdh': ('echarge massd massh widthh massW sinW', 'massd massh massW'),
    'dnnd': ('echarge massd massW sinW widthZ', 'massd massW'),
    'dsds': ('echarge gscharge massd masss massh widthh massW sinW widthZ', 'massd masss massh massW'),
    'eAAe': ('echarge masse', 'masse'),
    'eAeh': ('echarge masse massh vev', 'masse massh'),
    'eWWe': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eZZe': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eZeh': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeAA': ('echarge masse', 'masse'),
    'eeAZ': ('echarge masse massW sinW', 'masse massW'),
    'eeAh': ('echarge masse massh vev', 'masse massh'),
    'eeWW': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeZZ': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeZh': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeee': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeee2': ('echarge masse massh widthh massW sinW widthZ', 'masse massh massW'),
    'eeeeQED': ('echarge masse', 'masse'),
    'eehh': ('echarge masse massh widthh massW sinW', 'masse massh massW'),
    'eemm': ('echarge masse massmu massh widthh massW sinW widthZ', 'masse massmu massh massW'),
    'eemmQED': ('echarge masse massmu', 'masse massmu'),
    'eenene': ('echarge masse massW widthW sinW widthZ', 'masse massW'),
    'eenmnm': ('echarge masse massW sinW widthZ', 'masse massW'),
    'eheh': ('echarge masse massh widthh massW sinW', 'masse massh massW'),
    'emem': ('echarge masse massmu massh widthh massW sinW widthZ', 'masse massmu massh massW'),
    'enAW': ('echarge masse massW sinW widthW', 'masse massW'),
    'enWh': ('echarge masse massh massW widthW sinW', 'masse massh massW'),
    'enZW': ('echarge masse massW sinW widthW', 'masse massW'),
    'enenee': ('echarge masse massW widthW sinW widthZ', 'masse massW'),
    'enmenm': ('echarge masse massW sinW widthZ', 'masse massW'),
    'gAdd': ('echarge gscharge massd', 'massd'),
    'gAuu': ('echarge gscharge massu', 'massu'),
    'gWud': ('echarge gscharge massu massd massW sinW', 'massu massd massW'),
    'gZdd': ('echarge gscharge massd massW sinW', 'massd massW'),
    'gZuu': ('echarge gscharge massu massW sinW', 'massu massW'),
    'gdZd': ('echarge gscharge massd massW sinW', 'massd massW'),
    'ggdd': ('gcharge massd', 'massd'),
    'gggg': ('gcharge', ''),
    'gguu': ('gcharge massu', 'massu'),
    'guAu': ('echarge gscharge massu', 'massu'),
    'guZu': ('echarge gscharge massu massW sinW', 'massu massW'),
    'gugu': ('gcharge massu', 'massu'),
    'hWWh': ('echarge massh widthh massW sinW widthW', 'massh massW'),
    'hZZh': ('echarge massh widthh massW sinW widthZ', 'massh massW'),
    'hgdd': ('echarge gscharge massd massh massW sinW', 'massd massh massW'),
    'hguu': ('echarge gscharge massu massh massW sinW', 'massu massh massW'),
    'hhWW': ('echarge massh widthh massW sinW widthW', 'massh massW'),
    'hhZZ': ('echarge massh widthh massW sinW widthZ', 'massh massW'),
    'hhhh': ('echarge massh widthh massW sinW', 'massh massW'),
    'hnWe': ('echarge masse massh massW widthW sinW', 'masse massh massW'),
    'menn': ('echarge masse massmu massW widthW sinW', 'masse massmu massW'),
    'mnen': ('echarge masse massmu massW widthW sinW', 'masse massmu massW'),
    'nWWn': ('echarge masse massW sinW widthZ', 'masse massW'),
    'nZZn': ('echarge massW sinW widthZ', 'massW'),
    'nZnh': ('echarge massh massW sinW widthZ', 'massh massW'),
    'nenenene': ('echarge massW sinW widthZ', 'massW'),
    'nenenene2': ('echarge massW sinW widthZ', 'massW'),
    'nenenmnm': ('echarge massW sinW widthZ', 'massW'),
    'nenmnenm': ('echarge massW sinW widthZ', 'massW'),
    'nnWW': ('echarge masse massW sinW widthZ', 'masse massW'),
    'nnZZ': ('echarge massW sinW widthZ', 'massW'),
    'nnZh': ('echarge massh massW sinW widthZ', 'massh massW'),
    'uAAu': ('echarge massu', 'massu'),
    'uAuh': ('echarge massu massh massW sinW', 'massu massh massW'),
    'uWWu': ('echarge massu massd massh widthh massW sinW widthZ', 'massu massd massh massW'),
    'uZZu': ('echarge massf massh widthh massW sinW widthZ', 'massf massh massW'),
    'uZuh': ('echarge massu massh widthh massW sinW widthZ', 'massu massh massW'),
    'ubdt': ('echarge massu massd masst massb massW widthW sinW', 'massu massd masst massb massW'),
    'ucuc': ('echarge gscharge massu massc massh widthh massW sinW widthZ', 'massu massc massh massW'),
    'udAW': ('echarge massu massd massW sinW widthW', 'massu massd massW'),
    'udWh': ('echarge massu massd massh massW widthW sinW', 'massu massd massh massW'),
    'udZW': ('echarge massu massd massW sinW widthW', 'massu massd massW'),
    'udnl': ('echarge massu massd masstau massW widthW sinW', 'massu massd masstau massW'),
    'udtb': ('echarge massu massd masst massb massW widthW sinW', 'massu massd masst massb massW'),
    'udud': ('echarge gscharge massu massd massh widthh massW widthW sinW widthZ', 'massu massd massh massW'),
    'ueeu': ('echarge massu masse massh widthh massW sinW widthZ', 'massu masse massh massW'),
    'uguh': ('echarge gscharge massu massh massW sinW', 'massu massh massW'),
    'uhWd': ('echarge massu massd massh massW widthW sinW', 'massu massd massh massW'),
    'uhuh': ('echarge massu massh widthh massW sinW', 'massu massh massW'),
    'ulnd': ('echarge massu massd masstau massW widthW sinW', 'massu massd masstau massW'),
    'unnu': ('echarge massu massW sinW widthZ', 'massu massW'),
    'usus': ('echarge gscharge massu masss massh widthh massW sinW widthZ', 'massu masss massh massW'),
    'uuAA': ('echarge massu', 'massu'),
    'uuAh': ('echarge massu massh massW sinW', 'massu massh massW'),
    'uuWW': ('echarge massu massd massh widthh massW sinW widthZ', 'massu massd massh massW'),
    'uuZZ': ('echarge massf massh widthh massW sinW widthZ', 'massf massh massW'),
    'uuZh': ('echarge massu massh widthh massW sinW widthZ', 'massu massh massW'),
    'uucc': ('echarge gscharge massu massc massh widthh massW sinW widthZ', 'massu massc massh massW'),
    'uudd': ('echarge gscharge massu massd massh widthh massW widthW sinW widthZ', 'massu massd massh massW'),
    'uuee': ('echarge massu masse massh widthh massW sinW widthZ', 'massu masse massh massW'),
    'uuhh': ('echarge massu massh widthh massW sinW', 'massu massh massW'),
    'uunn': ('echarge massu massW sinW widthZ', 'massu massW'),
    'uuss': ('echarge gscharge massu masss massh widthh massW sinW widthZ', 'massu masss massh massW'),
    'uuuu': ('echarge gscharge massu massh widthh massW sinW widthZ', 'massu massh massW'),
    'uuuu2': ('echarge gscharge massu massh widthh massW sinW widthZ', 'massu massh massW'),
}

CHARGE = {"A": 0, "g": 0, "Z": 0, "h": 0, "W+": 3, "W-": -3, "e": -3, "m": -3, "l": -3, "ne": 0, "nm": 0, "nl": 0,
          "u": 2, "c": 2, "t": 2, "d": -1, "s": -1, "b": -1}
PARTNER = {"e": "ne", "m": "nm", "l": "nl", "u": "d", "c": "s", "t": "b"}
PARTNER.update({v: k for k, v in list(PARTNER.items())})
QUARKS = set("ucdstb")
BOSONS = {"A", "g", "Z", "h", "W"}
MASSNAME = {"e": "masse", "m": "massmu", "l": "masstau", "u": "massu", "d": "massd", "s": "masss", "c": "massc", "t": "masst", "b": "massb",
            "h": "massh", "W": "massW"}
WIDTHNAME = {"h": "widthh", "W": "widthW", "Z": "widthZ"}


class Leg:
    def __init__(self, text):
        self.text = text
        anti = text not in CHARGE
        base = text[0].lower() + text[1:] if anti else text
        self.charge = -CHARGE[base] if anti else CHARGE[base]
        self.kind = base.rstrip("+-")       # species without charge
        self.anti = anti
        self.boson = self.kind in BOSONS
        self.fermion = not self.boson

    def incoming(self):
        """the same leg counted as incoming"""
        r = Leg(self.text)
        r.charge = -r.charge
        r.anti = not r.anti
        return r

    def states(self):
        """number of helicity states"""
        if self.kind == "h":
            return 1
        if self.kind in ("Z", "W"):
            return 3
        if self.kind in ("ne", "nm", "nl"):
            return 1
        return 2


def legs(short):
    t = LEGS.get(short)
    return [Leg(x) for x in t.split()] if t else None


def vertex(a, b):
    """species that couple to the incoming pair a, b: set of names"""
    q = a.charge + b.charge
    if a.fermion and b.fermion:
        if a.kind == b.kind and a.anti != b.anti:
            out = {"Z"}
            if a.charge:
                out.add("A")
                out.add("h")
            if a.kind in QUARKS:
                out.add("g")
            return out
        if PARTNER.get(a.kind) == b.kind and a.anti != b.anti and abs(q) == 3:
            return {"W"}
        return set()
    if a.boson and b.boson:
        k = {a.kind, b.kind}
        if k == {"W"}:
            return {"A", "Z", "h"} if q == 0 else set()
        if k == {"Z"} or k == {"h"}:
            return {"h"}
        if k == {"Z", "h"}:
            return {"Z"}
        if "W" in k and k & {"A", "Z", "h"}:
            return {"W"}
        if k == {"g"}:
            return {"g"}
        return set()
    f, v = (a, b) if a.fermion else (b, a)
    if v.kind == "W":
        p = PARTNER[f.kind]
        want = CHARGE[p] if not f.anti else -CHARGE[p]
        return {p} if q == want else set()
    if v.kind == "g":
        return {f.kind} if f.kind in QUARKS else set()
    if v.kind in ("A", "h") and not f.charge:
        return set()
    return {f.kind}


def exchanges(short):
    """{channel: species} for the channels (1,2), (1,3), (1,4)"""
    l = legs(short)
    if l is None:
        return None
    a = [l[0], l[1], l[2].incoming(), l[3].incoming()]
    out = {}
    for j, (k, m) in ((1, (2, 3)), (2, (1, 3)), (3, (1, 2))):
        s = vertex(a[0], a[j]) & vertex(a[k], a[m])
        if short.endswith("QED"):
            s &= {"A"} | {x for x in s if x not in BOSONS}
        if s:
            out[(1, j + 1)] = s
    return out

# process classes outside the library's namespace and the process they are
EXAMPLES = {"eemm": "eemmQED"}
