"""The mahjong library as seen by the code under verification: external, trusted, described by contracts.
Everything is a record of how it was called; the harnesses give the results."""
import types
from . import sym


class Recorder:
    def __init__(self, *a, **k):
        self.args, self.kw = a, k
        for n, v in k.items():
            setattr(self, n, v)


class Meld:
    CHI, PON, KAN, CHANKAN, NUKI, SHOUMINKAN = "chi", "pon", "kan", "chankan", "nuki", "shouminkan"

    def __init__(self, meld_type=None, tiles=None, opened=True, called_tile=None, who=None, from_who=None):
        self.type, self.tiles, self.opened = meld_type, tiles, opened
        self.called_tile, self.who, self.from_who = called_tile, who, from_who


class HandConfig(Recorder):
    pass


class OptionalRules(Recorder):
    pass


class HandCalculator:
    def estimate_hand_value(self, *a, **k):
        c = sym.ctx()
        return c.tags["estimate_hand_value"](*a, **k)


class Shanten:
    AGARI_STATE = -1

    def calculate_shanten(self, tiles, *a, **k):
        c = sym.ctx()
        return c.tags["calculate_shanten"](tiles, *a, **k)


class TilesConverter:
    @staticmethod
    def string_to_136_array(*a, **k):
        c = sym.ctx()
        return c.tags["string_to_136_array"](*a, **k)


class HandResponse:
    pass


def make():
    def mod(name, **k):
        m = types.ModuleType(name)
        for a, b in k.items():
            setattr(m, a, b)
        return m
    root = mod("mahjong")
    tile = mod("mahjong.tile", TilesConverter=TilesConverter)
    meld = mod("mahjong.meld", Meld=Meld)
    shanten = mod("mahjong.shanten", Shanten=Shanten)
    hand = mod("mahjong.hand_calculating.hand", HandCalculator=HandCalculator)
    resp = mod("mahjong.hand_calculating.hand_response", HandResponse=HandResponse)
    conf = mod("mahjong.hand_calculating.hand_config", HandConfig=HandConfig, OptionalRules=OptionalRules)
    hc = mod("mahjong.hand_calculating", hand=hand, hand_response=resp, hand_config=conf)
    root.tile, root.meld, root.shanten, root.hand_calculating = tile, meld, shanten, hc
    return {"mahjong": root, "mahjong.tile": tile, "mahjong.meld": meld, "mahjong.shanten": shanten,
            "mahjong.hand_calculating": hc, "mahjong.hand_calculating.hand": hand,
            "mahjong.hand_calculating.hand_response": resp, "mahjong.hand_calculating.hand_config": conf}
