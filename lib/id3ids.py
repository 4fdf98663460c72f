"""Frame identifiers of the ID3v2 standards (id3v2-00, id3v2.3.0, id3v2.4.0-frames)
and the fields they carry.  This is the oracle: nothing here is read from the tree."""

# name of the field, identifier in ID3v2.2, identifier in ID3v2.3 and ID3v2.4
TEXT = [
    ("album", "TAL", "TALB"), ("bpm", "TBP", "TBPM"), ("composer", "TCM", "TCOM"), ("genre", "TCO", "TCON"),
    ("copyright", "TCR", "TCOP"), ("date", "TDA", "TDAT"), ("playlist-delay", "TDY", "TDLY"), ("encoded-by", "TEN", "TENC"),
    ("lyricist", "TXT", "TEXT"), ("file-type", "TFT", "TFLT"), ("time", "TIM", "TIME"), ("content-group", "TT1", "TIT1"),
    ("title", "TT2", "TIT2"), ("subtitle", "TT3", "TIT3"), ("initial-key", "TKE", "TKEY"), ("langs", "TLA", "TLAN"),
    ("length", "TLE", "TLEN"), ("media-type", "TMT", "TMED"), ("original-album", "TOT", "TOAL"),
    ("original-filename", "TOF", "TOFN"), ("original-lyricist", "TOL", "TOLY"), ("original-artist", "TOA", "TOPE"),
    ("original-release-year", "TOR", "TORY"), ("file-owner", None, "TOWN"), ("artist", "TP1", "TPE1"), ("band", "TP2", "TPE2"),
    ("conductor", "TP3", "TPE3"), ("interpreted-by", "TP4", "TPE4"), ("part-of-a-set", "TPA", "TPOS"),
    ("publisher", "TPB", "TPUB"), ("track", "TRK", "TRCK"), ("recording-dates", "TRD", "TRDA"), ("station-name", None, "TRSN"),
    ("station-owner", None, "TRSO"), ("size", "TSI", "TSIZ"), ("isrc", "TRC", "TSRC"), ("settings", "TSS", "TSSE"),
    ("year", "TYE", "TYER"),
]

OTHER = [
    ("comment", "COM", "COMM"), ("play-count", "CNT", "PCNT"), ("popm", "POP", "POPM"), ("udt", "TXX", "TXXX"),
    ("unique-file-id", "UFI", "UFID"), ("tag-cloud", "XTG", "XTAG"), ("priv", None, "PRIV"), ("encryption", None, "ENCR"),
]

ALIAS = {"content-type": "genre", "languages": "langs", "user-defined-text": "udt", "popularimeter": "popm"}

PAIRS = TEXT + OTHER
BY_NAME = {n: (a, b) for n, a, b in PAIRS}
TO4 = {a: b for _, a, b in PAIRS if a}
TO3 = {b: a for _, a, b in PAIRS}
NAME = {}
for _n, _a, _b in PAIRS:
    NAME[_b] = _n
    if _a:
        NAME[_a] = _n

# everything the standards define, for recognising misspelt identifiers
KNOWN3 = set(TO4) | set("BUF CNT COM CRA CRM ETC EQU GEO IPL LNK MCI MLL PIC POP REV RVA SLT STC TAL ULT UFI WAF WAR WAS WCM WCP WPB WXX".split())
KNOWN4 = set(TO3) | set("""AENC APIC ASPI COMR EQUA EQU2 ETCO GEOB GRID IPLS LINK MCDI MLLT OWNE PCNT POSS RBUF RVAD RVA2 RVRB SEEK SIGN
SYLT SYTC TDEN TDOR TDRC TDRL TDTG TIPL TMCL TMOO TPRO TSOA TSOP TSOT TSST USER USLT WCOM WCOP WOAF WOAR WOAS WORS WPAY WPUB WXXX""".split())


def ids(field):
    f = field.replace("_", "-")
    return BY_NAME.get(ALIAS.get(f, f))
