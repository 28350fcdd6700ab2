"""Event lists with identities, for the music module."""
from vf import num, boolean
from props import seqlib


class Music:
    def __init__(self):
        from ndspy import soundSequence as S
        from ndspy.extras import music as M
        self.S, self.M, self.lib = S, M, seqlib.Lib()
        V = S.MonoPolySequenceEvent.Value
        self.mode = {1: V.MONO, 0: V.POLY}
        self.reset()

    def reset(self):
        self.ids, self.keep = {}, []

    def id(self, o):
        if id(o) not in self.ids:
            self.keep.append(o); self.ids[id(o)] = len(self.keep)
        return self.ids[id(o)]

    def make(self, e):
        """e with references as positions is built by build(); here: no references."""
        o = self.lib.make(e)
        if e['k'] == 0xC7: o = self.S.MonoPolySequenceEvent(self.mode[e['a'][0]])
        return o

    def build(self, prog):
        """prog: records with ref = list of positions (1..)."""
        objs = [self.make(e) for e in prog]
        for o, e in zip(objs, prog): self.lib.link(o, e, objs)
        return objs

    def obs(self, objs):
        for o in objs: self.id(o)
        out = []
        for o in objs:
            d = self.lib.observe(o, self.id)
            out.append({'id': self.id(o), 'k': d['k'], 'a': d['a'], 'raw': d['raw'], 'ref': d['ref']})
        return out

    def song(self, m):
        return [{'n': num(n), 'evs': self.obs(m.tracks[n].events)} for n in sorted(m.tracks)]


def positions(evs):
    """Turn identity references into positions."""
    pos = {e['id']: i + 1 for i, e in enumerate(evs)}
    return [{'k': e['k'], 'a': e['a'], 'raw': e['raw'], 'ref': [pos[r] for r in e['ref']]} for e in evs]
