"""Planted bugs the checks missed when they were first run, and what was added."""
MISSED = {
 'B04': 'P05: a base frame with almost vertical members', 'B07': 'P08: elements and sections redefined',
 'B08': 'P09: loads set to zero again', 'B14': 'P15: opposite and coincident points',
 'B18': 'P01: families in very small and very large units', 'B23': 'P07: point loads at the very ends of released members',
 'B25': 'P09: factor zero', 'B26': 'P10: other models in between, continuation in another process',
 'B31': 'P15: angles beyond half a turn', 'B34': 'P18: matrices looked at between rotations',
 'B36': 'P20: histories of up to 1300 steps', 'B37': 'P05: wider range of units of force',
 'B43': 'P16: masses from micrograms to gigatons', 'B44': 'P17: members of zero density', 'B47': 'P10: stores with similar names',
 'B48': 'P12: case names that are dotted extensions of each other', 'B49': 'P02: factors from 1e-12 to 1e9',
 'B68': 'P26: restraint answers are inverted, not merely normalised', 'B54': 'P13: two unconnected parts loaded 1e3 to 1e12 times apart', 'B58': 'P14: negative ratios of Poisson',
 'B69': 'P01: models of several intermediate sizes', 'B71': 'P27 was added', 'B73': 'P14: very thin walls and other units', 'B75': 'P22: records to 17000 points',
 'B81': 'P28: the reference results come from processes of their own',
 'B82': 'P01: several members between the same nodes', 'B83': 'P25: insertions far from the origin',
 'B84': 'P05: translations far away', 'B85': 'P20: very small and large loads and units',
 'B88': 'P28: sessions one after the other, dropped, under other names', 'B89': 'P12: results looked at after every operation',
 'B90': 'P07: units of force', 'B91': 'P23: links in the work directory',
}
