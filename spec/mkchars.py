"""Character tables of IcbText.tla (no logic beyond ASCII case and the two name alphabets)."""
import json
nick = set("-.!'$+,/?_@"); grp = set("-.!'$+,/?_~")
def filt(c, ok):
    o = ord(c)
    if (c.isalnum() and o < 128) or c in ok: return c
    return "_" if c == " " else "?"
ch = [chr(i) for i in range(256)]
json.dump({"ord": {c: ord(c) for c in ch},
           "lo": {c: (c.lower() if "A" <= c <= "Z" else c) for c in ch},
           "up": {c: (c.upper() if "a" <= c <= "z" else c) for c in ch},
           "nk": {c: filt(c, nick) for c in ch}, "gp": {c: filt(c, grp) for c in ch},
           "chr": ch}, open("chars.json", "w"), ensure_ascii=True, indent=0)
