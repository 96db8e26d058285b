import changeset_checks
import coord_checks
import copy_checks
import damage_checks
import export_checks
import iter_checks
import obj_checks
import pbf_checks
import source_checks
import time_checks
import tool_checks
import writer_checks
import xml_checks
import xmldamage_checks

CHECKS = {
    "P01": pbf_checks.p01,
    "P02": pbf_checks.p02,
    "P03": pbf_checks.p03,
    "P04": pbf_checks.p04,
    "P05": pbf_checks.p05,
    "P06": iter_checks.p06,
    "P07": damage_checks.p07,
    "P08": writer_checks.p08,
    "P09": writer_checks.p09,
    "P10": writer_checks.p10,
    "P11": writer_checks.p11,
    "P12": xml_checks.p12,
    "P13": xml_checks.p13,
    "P14": changeset_checks.p14,
    "P15": changeset_checks.p15,
    "P16": changeset_checks.p16,
    "P17": obj_checks.p17,
    "P18": obj_checks.p18,
    "P19": time_checks.p19,
    "P20": coord_checks.p20,
    "P21": source_checks.p21,
    "P22": export_checks.p22,
    "P23": obj_checks.p23,
    "P24": iter_checks.p24,
    "P25": xmldamage_checks.p25,
    "P26": tool_checks.p26,
    "P27": copy_checks.p27,
}

# how a property is decided, where it differs from the rest
TECHNIQUE = {}
NOTES = {}
NOT_YET = {}
