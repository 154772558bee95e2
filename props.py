"""What each check runs: models for TLC, histories to record, and the trace specification."""

DICT_INV = ["Canonical", "Answers", "OrderOk", "SplitMergeOk", "NearestOk", "ExtraOk", "Emit"]


def dict_mc(sel, keys="@K3", n=3, vals="@V1", aug="FALSE", lists=40, tier="both", shards=8, gen="dict"):
    return {"module": "Dict_MC", "view": "View", "inv": DICT_INV, "tier": tier, "env": {"SEL": sel}, "gen": gen,
            "shards": shards,
            "consts": {"N": n, "KeySet": keys, "Vals": vals, "Aug": aug, "MaxLists": lists}}


def bit_mc(mode, n, tier="both"):
    return {"module": "Bitio_MC", "inv": ["BytesAgree", "Windows", "Scans", "Numbers", "Gen"], "gen": "bits", "tier": tier,
            "consts": {"Mode": '"%s"' % mode, "MaxLen": n, "Chunks": "@Some"}}


def cells_mc(n, datas="@Few", tier="both"):
    return {"module": "Cells_MC", "view": "View", "gen": "cells", "tier": tier,
            "inv": ["Valid", "LevelsOk", "Injective", "Transparent", "Parent", "Proofs", "Gen"],
            "consts": {"MaxCells": n, "Datas": datas}}


def boc_mc(mode, tier="both"):
    return {"module": "Boc_MC", "inv": ["RoundTrip", "Noticed", "Gen"], "gen": "boc", "tier": tier, "consts": {"Mode": '"%s"' % mode}}


def merkle_mc(mode, n, datas, inv, tier="both", gen="merkle"):
    return {"module": "Merkle_MC", "view": "View", "inv": inv, "gen": gen, "tier": tier,
            "consts": {"MaxCells": n, "Datas": datas, "Mode": '"%s"' % mode}}


def shards_mc(mode, depth, inv, tier="both"):
    return {"module": "Shards_MC", "inv": inv, "gen": "shards", "tier": tier, "consts": {"Mode": '"%s"' % mode, "Depth": depth}}


def num_mc(near, tier="both"):
    return {"module": "Num_MC", "inv": ["Encodings", "OutOfRange", "OpLaws", "Gen"], "gen": "num", "tier": tier,
            "consts": {"Ts": "@TAll", "Near": near}}


def money_mc(ids, toks, tier="both"):
    return {"module": "Money_MC", "inv": ["Laws", "Sizes", "Gen"], "gen": "money", "tier": tier, "consts": {"Ids": ids, "Toks": toks}}


def stat_mc(nodes, adds, tier="both"):
    return {"module": "Stat_MC", "inv": ["WalkOk", "Bounded", "OrderFree", "Gen"], "gen": "stat", "tier": tier,
            "consts": {"MaxNodes": nodes, "MaxAdds": adds, "Datas": "@Two"}}


def addr_mc(lens, wide, tier="both"):
    return {"module": "Addr_MC", "inv": ["Round", "Order", "Checked", "Gen"], "gen": "addr", "tier": tier,
            "consts": {"Lens": lens, "Wide": "TRUE" if wide else "FALSE"}}


def tlb_mc(seeds, kinds="@AllTypes", tier="both"):
    return {"module": "Tlb_MC", "consts": {"Kinds": kinds, "Seeds": seeds}, "inv": ["ReadsBack", "WritesBack", "NotLess", "Gen"], "gen": "tlb", "shards": 8, "tier": tier}


def json_mc(seeds, tier="both"):
    return {"module": "JsonForm_MC", "consts": {"Kinds": "@TextTypes", "Seeds": seeds}, "inv": ["ReadsBack", "SetParts", "Gen"], "gen": "json", "shards": 8, "tier": tier}


def config_mc(ids, more, steps, tier="both"):
    return {"module": "Config_MC", "consts": {"Ids": ids, "More": more, "Steps": steps}, "inv": ["Sound", "Second", "Gen"], "view": "View1",
            "gen": "config", "shards": 8, "tier": tier}


def msg_mc(seeds, tier="both"):
    heads = "{250, 600, 1005, 1010, 1012, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022}"
    return {"module": "Msg_MC", "consts": {"Kinds": '{"MsgInfo", "RelaxedMsgInfo"}', "Seeds": seeds, "Heads": heads},
            "inv": ["ReadsBack", "Gen"], "gen": "msg", "shards": 8, "tier": tier}


def subset_mc(size, weights, main, top, tier="both"):
    return {"module": "Subset_MC", "consts": {"Size": size, "Weights": weights, "Main": main, "Top": top},
            "inv": ["Distinct", "Chosen", "SameSearch", "Gen"], "gen": "vset", "shards": 8, "tier": tier}


def actions_mc(seeds, size, tier="both"):
    return {"module": "Actions_MC", "consts": {"Seeds": seeds, "Size": size}, "inv": ["InOrder", "Gen"], "gen": "vset", "shards": 8, "tier": tier}


def damage_mc(n, bits, kids, every, tier="both"):
    return {"module": "Damage_MC", "consts": {"N": n, "Bits0": bits, "Kids": kids, "Every": every},
            "inv": ["Apart", "Agree", "Steps", "Known", "Gen"], "gen": "dmg", "shards": 8, "tier": tier}


def abi_mc(menu, most, tier="both", start="Nothing"):
    return {"module": "Abi_MC", "inv": ["RoundTrip", "Gen"], "gen": "abi", "shards": 8, "tier": tier,
            "consts": {"Menu": "@" + menu, "Start": "@" + start, "Most": most, "Vers": "@OldNew"}}


def usage_mc(threads, reads, tier="both"):
    return {"module": "Usage_MC", "inv": ["Never", "Exact", "NoJam", "Prompt", "Gen"], "gen": "usage", "tier": tier,
            "consts": {"Threads": threads, "Reads": reads, "MayDrop": "TRUE"}}


def life_mc(ops, weak, tier="both"):
    return {"module": "Life_MC", "inv": ["Counted", "Exact", "Commute", "Gen"], "gen": "life", "tier": tier,
            "consts": {"Cells": 4, "Hands": 5, "Ops": ops, "R": 2, "Weak": weak}}


def drop_mc(n, r, threads, h, keep, depth, tier="thorough"):
    return {"module": "Drop_MC", "inv": ["FreedExactly", "Untouched", "Shallow"], "tier": tier,
            "consts": {"N": n, "R": r, "Threads": threads, "H": h, "Keep": keep, "Depth": depth, "defaultInitValue": 0}}


PROPS = {
    "C01": {
        "trace": "Dict_Trace",
        "models": [dict_mc("map"), dict_mc("map", "@K2", 2, "@V2", tier="quick", shards=2),
                   dict_mc("map", "@K3", 3, "@V2", tier="thorough")],
        "records": [("dict", "map", 2400, 20000, 60)],
    },
    "C02": {
        "trace": "Dict_Trace",
        "models": [dict_mc("order")],
        "records": [("dict", "order", 2000, 16000, 60)],
    },
    "C03": {
        "trace": "Dict_Trace",
        "models": [dict_mc("bulk"), dict_mc("bulk", "@K2", 2, "@V2", lists=81, shards=2)],
        "records": [("dict", "bulk", 1400, 10000, 40)],
    },
    "C04": {
        "trace": "Dict_Trace",
        "models": [dict_mc("aug", "@K8", 8, "@VA", "TRUE", lists=15)],
        "records": [("dict", "aug", 1200, 10000, 50)],
    },
    "C05": {
        "trace": "Dict_Trace",
        "models": [dict_mc("map")],
        "records": [("dict", "cx", 2400, 20000, 60)],
    },
    "C06": {
        "trace": "Bitio_Trace",
        "models": [bit_mc("build", 12, tier="quick"), bit_mc("build", 17, tier="thorough")],
        "records": [("bits", "build", 6000, 20000, 60)],
    },
    "C07": {
        "trace": "Bitio_Trace",
        "models": [bit_mc("slice", 0)],
        "records": [("bits", "slice", 5000, 24000, 60)],
    },
    "C08": {
        "trace": "Cells_Trace",
        "models": [cells_mc(3, tier="quick"), cells_mc(4, "@One", tier="thorough")],
        "records": [("cells", "all", 2400, 30000, 50)],
    },
    "C09": {
        "trace": "Boc_Trace",
        "models": [boc_mc("graphs")],
        "records": [("boc", "enc", 700, 8000, 6)],
    },
    "C10": {
        "trace": "Boc_Trace",
        "models": [boc_mc("forms"), boc_mc("bytes")],
        "records": [("boc", "dec", 3000, 30000, 20)],
    },
    "C11": {
        "trace": "Merkle_Trace",
        "models": [merkle_mc("proof", 3, "@Few", ["ProofsOk", "CellProofs", "Gen"])],
        "records": [("merkle", "proof", 1500, 15000, 14)],
    },
    "C12": {
        "trace": "Merkle_Trace",
        "models": [merkle_mc("update", 3, "@Few", ["UpdatesOk", "RemovedOk", "Gen"])],
        "records": [("merkle", "update", 1200, 12000, 14)],
    },
    "C15": {
        "trace": "Shards_Trace",
        "models": [shards_mc("pairs", 2, ["Laws", "Gen"], tier="quick"), shards_mc("pairs", 3, ["Laws", "Gen"], tier="thorough")],
        "records": [("shards", "ids", 2000, 20000, 60)],
    },
    "C16": {
        "trace": "Shards_Trace",
        "models": [shards_mc("parts", 2, ["Partition", "Gen"])],
        "records": [("shards", "tables", 160, 3000, 6)],
    },
    "C18": {
        "trace": "Num_Trace",
        "models": [num_mc("TRUE", "quick"), num_mc("FALSE", "thorough")],
        "records": [("num", "all", 640, 12000, 60)],
    },
    "C17": {
        "trace": "Money_Trace",
        "models": [money_mc("@Two", "@Few", "quick"), money_mc("@Three", "@Few", "thorough")],
        "records": [("money", "all", 900, 12000, 40)],
    },
    "C22": {
        "trace": "Stat_Trace",
        "models": [stat_mc(3, 2, "quick"), stat_mc(3, 3, "thorough")],
        "records": [("stat", "all", 1500, 20000, 60)],
    },
    "C13": {
        "features": ("rc",),
        "trace": "Usage_Trace",
        "models": [usage_mc("{1,2}", 2), usage_mc("{1,2,3}", 1)],
        "records": [("usage", "all", 2400, 20000, 60), ("usage", "all", 600, 8000, 60, {"rc": True})],
    },
    "C14": {
        "features": ("rc",),
        "trace": "Life_Trace",
        "models": [drop_mc(4, 2, "{1}", 1, 1, 3, "both"), drop_mc(3, 2, "{1, 2}", 1, 1, 5, "both"),
                   drop_mc(4, 2, "{1, 2}", 1, 1, 5), drop_mc(3, 2, "{1, 2, 3}", 1, 0, 6), drop_mc(4, 3, "{1}", 1, 1, 3),
                   drop_mc(5, 2, "{1}", 1, 0, 3), drop_mc(3, 2, "{1, 2}", 2, 1, 6),
                   life_mc(5, "TRUE", "quick"), life_mc(4, "FALSE"), life_mc(6, "TRUE", "thorough")],
        "records": [("life", "all", 1600, 12000, 40), ("life", "all", 400, 4000, 40, {"rc": True})],
    },
    "C20": {
        "trace": "Addr_Trace",
        "models": [addr_mc("{0,1,2,30}", False, "quick"), addr_mc("{0,1,2,3,8,29,30}", True, "thorough")],
        "records": [("addr", "all", 1500, 20000, 40)],
    },
    "C23": {
        "trace": "Tlb_Trace",
        "models": [tlb_mc(25, tier="quick"), tlb_mc(400, tier="thorough")],
        "records": [("tlb", "rand", 1200, 12000, 8), ("tlb", "real", 80, 600, 10)],
    },
    "C19": {
        "trace": "Msg_Trace",
        "models": [msg_mc(40, "quick"), msg_mc(800, "thorough")],
        "records": [("msg", "rand", 2000, 30000, 6)],
    },
    "C24": {
        "trace": "Vset_Trace",
        "models": [subset_mc(3, "{0, 1, 2, 3}", "{1, 2, 3}", 5, "quick"), actions_mc(60, 4, "quick"),
                   subset_mc(5, "{0, 1, 2, 3}", "{1, 2, 4}", 7, "thorough"), actions_mc(600, 6, "thorough")],
        "records": [("vset", "subset", 300, 8000, 10), ("vset", "acts", 150, 4000, 10)],
    },
    "C25": {
        "trace": "Dmg_Trace",
        "models": [damage_mc(2, 5, "@Few", "FALSE", "quick"), damage_mc(1, 4, "@Few", "FALSE", "quick"),
                   damage_mc(1, 6, "@Many", "TRUE", "thorough"), damage_mc(2, 6, "@Many", "TRUE", "thorough"),
                   damage_mc(3, 6, "@Few", "TRUE", "thorough")],
        "records": [("dmg", "tree", 3000, 40000, 16), ("dmg", "aug", 1500, 20000, 16)],
    },
    "C21": {
        "trace": "Abi_Trace",
        "models": [abi_mc("Limits", 3, "quick"), abi_mc("Links", 5, "quick"), abi_mc("All", 2, "quick"),
                   abi_mc("Brink", 4, "quick", "Both"), abi_mc("Brink", 5, "thorough", "Both"),
                   abi_mc("Limits", 6, "thorough"), abi_mc("Links", 8, "thorough"), abi_mc("All", 3, "thorough")],
        "records": [("abi", "value", 320, 12000, 20), ("abi", "call", 120, 4000, 10), ("abi", "init", 120, 4000, 15)],
    },
    "C26": {
        "trace": "JsonForm_Trace",
        "models": [json_mc(20, "quick"), json_mc(300, "thorough")],
        "records": [("json", "rand", 500, 6000, 20)],
    },
    "C27": {
        "trace": "Config_Trace",
        "models": [config_mc("@Small0", "{}", 5, "quick"), config_mc("@Sets0", "{}", 7, "quick"),
                   config_mc("@Small0", "{4}", 6, "thorough"), config_mc("@Sets0", "{}", 7, "thorough")],
        "records": [("config", "all", 500, 6000, 40)],
    },
}
