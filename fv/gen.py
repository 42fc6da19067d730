"""Value generators with plenty of boundary and hostile values."""
import os

USERS = ["root", "alice", "bob", "carol", "d-ave_1", "svc0", "zed"]
UID = {"root": 0, "alice": 3001, "bob": 3002, "carol": 3003, "d-ave_1": 3004, "svc0": 301, "zed": 65000}
PGID = {"root": 0, "alice": 3001, "bob": 3002, "carol": 3100, "d-ave_1": 3004, "svc0": 301, "zed": 100}
GROUPS = {"root": 0, "alice": 3001, "bob": 3002, "staff2": 3100, "d-ave_1": 3004, "svc0": 301, "webteam": 3200,
          "empty-grp": 3201, "video9": 3202, "users": 100}
ORPHAN_IDS = [4242, 65533, 1]     # 1 is daemon on this system; the others have no account

NAME_PARTS = ["a", "b.conf", "name with space", "-dash", "--", "--help", "ünïcödé", "日本語", "quote'", 'dq"x', "new\nline",
              "tab\t", "$HOME", "`id`", "$(id)", "semi;colon", "a*b?", "[x]", "back\\slash", "#hash", "~", "~root", ".hidden",
              "trailing ", " leading", "…", "%s%d", "{{x}}", "a:b", "a,b", "&amp", "|pipe", ">gt", "!bang", "🐸",
              "x" * 200, "UPPER", "0", "00", "...", "_u", "=eq", "@at", "café", "e\u0301", "\x01ctl", "\x7f", "\u200b"]


def name(rng, simple=0.35):
    if rng.random() < simple:
        return rng.choice("abcdefgh") + str(rng.randrange(100))
    if rng.random() < 0.8:
        return rng.choice(NAME_PARTS)
    n = rng.choice(NAME_PARTS) + rng.choice(["", "-", " ", "."]) + rng.choice(NAME_PARTS)
    while len(n.encode()) > 240:
        n = n[:-20]
    return n


def token(rng):
    return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(8))


MODES = ["0", "7", "70", "77", "444", "400", "600", "640", "644", "700", "750", "755", "777", "000", "0644", "0755", "00640",
         "1777", "1755", "2755", "2750", "4755", "6755", "7777", "4711", "7000", "1000", "2000", "4000", "02770", "0o644", "001", "111",
         "222", "5711", "3775"]


def mode(rng):
    if rng.random() < 0.8:
        return rng.choice(MODES)
    m = rng.randrange(0o10000)
    return rng.choice(["{:o}", "{:04o}", "{:03o}", "{:05o}", "0o{:o}"]).format(m)


def mode_int(m):
    return int(m, 8)


def owner(rng, orphan=False):
    """(argument, uid): user by name or by id."""
    u = rng.choice(USERS)
    return (u if rng.random() < 0.7 else str(UID[u])), UID[u]


def group(rng):
    g = rng.choice(list(GROUPS))
    return (g if rng.random() < 0.7 else str(GROUPS[g])), GROUPS[g]


def raw_ids(rng):
    """uid, gid of prior state, possibly without an account."""
    u = rng.choice(list(UID.values()) + [4242, 4243, 65533])
    g = rng.choice(list(GROUPS.values()) + [4242, 4243, 65533])
    return u, g


SIZES = [0, 1, 2, 3, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 70000, 131072, 131073]
BIG = [1 << 20, (1 << 20) + 1, (1 << 20) - 1, 3_000_001]


def content(rng, big=0.03):
    r = rng.random()
    if r < 0.08:
        return b""
    if r < 0.35:
        return ("\n".join(rng.choice(["key=value", "# comment", "", "  indented", "naïve ünïcode", "x" * 90, "tab\tsep", "a"])
                          for _ in range(rng.randrange(1, 12))) + rng.choice(["\n", "", "\n\n", "\r\n"])).encode()
    if r < 0.55:
        return bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 16, 100, 257])))
    if r < 0.62:
        return rng.choice([b"\x00", b"\x00\x00\x00\x00", b"\xff\xfe", b"\n", b"\r\n", b"\r", b"\x1b[31mred\x1b[m", b"\xef\xbb\xbfbom",
                           b"\xed\xa0\x80", b" ", b"\n\n\n", b"a\n\x00b\n", b"\xc3\x28", b"\\x00", b"%s {0} {{ x }} {% y %}"])
    n = rng.choice(SIZES) if rng.random() > big else rng.choice(BIG)
    seed = os.urandom(0)
    seed = rng.getrandbits(64).to_bytes(8, "big")
    return (seed * (n // 8 + 1))[:n]


def text(rng):
    """str content (valid unicode, no surrogates)."""
    return content(rng, 0).decode("utf-8", "replace")
