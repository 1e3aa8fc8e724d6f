"""property id -> (metadata, rule function)"""
import json, os
from core import VERIF
from rules import effects, schema, buffers, bitmap, encoder, varint, offsets, rle, io, reader, factory, names, panics, config

FN = {
    "I01": buffers.i01,
    "I02": buffers.i02,
    "I03": bitmap.i03,
    "I04": buffers.i04,
    "E01": encoder.rule("E01"),
    "E02": encoder.rule("E02"),
    "E03": encoder.rule("E03"),
    "E04": encoder.rule("E04"),
    "E05": factory.e05,
    "E06": varint.e06,
    "E07": rle.e07,
    "E08": offsets.e08,
    "E09": encoder.rule("E09"),
    "R01": reader.rule("R01"),
    "R02": reader.rule("R02"),
    "R03": effects.r03,
    "W01": io.rule("W01"),
    "W02": io.rule("W02"),
    "W03": io.rule("W03"),
    "W04": io.rule("W04"),
    "W05": io.rule("W05"),
    "W06": io.rule("W06"),
    "W07": names.rule,
    "W08": io.rule("W08"),
    "W09": io.rule("W09"),
    "P01": panics.rule,
    "C01": config.rule,
    "S01": schema.s01,
}


def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}


def get(pid):
    p = props().get(pid, {"title": pid})
    return {"title": p.get("title", pid), "level": "other"}, FN[pid]
