"""A connector that records what it is asked (events in LOG) and answers from the local system without any remote side."""
import grp
import itertools
import os
import pwd
import stat as st_

from fora.connectors.connector import CompletedRemoteCommand, Connector, GroupEntry, StatResult, UserEntry

LOG = []
FAIL_OPEN = set()        # names of hosts whose connection cannot be opened
SERIAL = itertools.count(1)
KIND = {st_.S_IFDIR: "dir", st_.S_IFREG: "file", st_.S_IFLNK: "link", st_.S_IFIFO: "fifo", st_.S_IFSOCK: "sock"}


class Rec(Connector):
    schema = "rec"

    def __init__(self, url, host):
        super().__init__(url, host)
        self.serial = next(SERIAL)
        self.opened = False

    def open(self):
        LOG.append(("open", self.host.name, self.serial))
        if self.host.name in FAIL_OPEN:
            raise IOError("connection refused (injected)")
        self.opened = True

    def close(self):
        LOG.append(("close", self.host.name, self.serial))
        self.opened = False

    def _ask(self):
        if not self.opened:
            LOG.append(("used-while-closed", self.host.name, self.serial))
            raise IOError("not open")

    def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):  # noqa: A002
        self._ask()
        LOG.append(("run", self.host.name, tuple(command), user, group, umask, cwd))
        code = 1 if command[0] == "false" else 0
        if check and code:
            import subprocess
            raise subprocess.CalledProcessError(code, command, output=b"", stderr=b"")
        return CompletedRemoteCommand(b"", b"", code)

    def resolve_user(self, user):
        self._ask()
        if user is None:
            return pwd.getpwuid(os.getuid()).pw_name
        try:
            return pwd.getpwnam(user).pw_name
        except KeyError:
            try:
                return pwd.getpwuid(int(user)).pw_name
            except (KeyError, ValueError):
                raise ValueError(f"no such user {user}") from None

    def resolve_group(self, group):
        self._ask()
        if group is None:
            return grp.getgrgid(os.getgid()).gr_name
        try:
            return grp.getgrnam(group).gr_name
        except KeyError:
            try:
                return grp.getgrgid(int(group)).gr_name
            except (KeyError, ValueError):
                raise ValueError(f"no such group {group}") from None

    def stat(self, path, follow_links=False, sha512sum=False):
        self._ask()
        try:
            s = os.stat(path) if follow_links else os.lstat(path)
        except FileNotFoundError:
            return None
        return StatResult(type=KIND.get(st_.S_IFMT(s.st_mode), "other"), mode=st_.S_IMODE(s.st_mode), owner=pwd.getpwuid(s.st_uid).pw_name, group=grp.getgrgid(s.st_gid).gr_name,
                          size=s.st_size, mtime=s.st_mtime_ns, ctime=s.st_ctime_ns, sha512sum=None)

    def upload(self, file, content, mode=None, owner=None, group=None):
        self._ask()
        LOG.append(("upload", self.host.name, file))

    def download(self, file):
        self._ask()
        raise ValueError("not found")

    def query_user(self, user, query_password_hash=False):
        self._ask()
        try:
            p = pwd.getpwnam(user)
        except KeyError:
            raise ValueError("no such user") from None
        return UserEntry(name=p.pw_name, uid=p.pw_uid, group=grp.getgrgid(p.pw_gid).gr_name, gid=p.pw_gid, groups=[], password_hash=None, gecos=p.pw_gecos, home=p.pw_dir, shell=p.pw_shell)

    def query_group(self, group):
        self._ask()
        g = grp.getgrnam(group)
        return GroupEntry(name=g.gr_name, gid=g.gr_gid, members=g.gr_mem)

    def getenv(self, key):
        self._ask()
        return os.environ.get(key)

    @classmethod
    def extract_hostname(cls, url):
        return url.split(":", 1)[1]


def register():
    Connector.registered_connectors["rec"] = Rec
