#!/usr/bin/env python3
"""Writes WS, a cargo workspace over the part of /repo that needs no crate from github.com.

Every file but five is a symlink into /repo, so cargo compiles the code in /repo itself.
The five are made at each run (and only rewritten when they differ):

  Cargo.toml                 /repo/Cargo.toml without the git [patch] and the webrtc-sys member
  src/rust/Cargo.toml        /repo/src/rust/Cargo.toml without the git crates, bins and tests/
  src/rust/src/lib.rs        /repo/src/rust/src/lib.rs without the modules in LEFT_OUT
  src/rust/build.rs          in place of /repo's, see build_rs()
  Cargo.lock                 /repo/Cargo.lock, which cargo then prunes
"""

import os
import re
import sys

REPO, WS = sys.argv[1], sys.argv[2]

# Not available offline (git dependencies), or reach such a crate.
CRATES = ("zkgroup", "libsignal-core", "x25519-dalek")

# Modules of ringrtc that use those crates, directly or through another module in this list.
LEFT_OUT = {
    "core": [
        "call",
        "call_fsm",
        "call_manager",
        "call_summary",
        "connection",
        "connection_fsm",
        "endorsements",
        "group_call",
        "platform",
    ],
    # lite::call_links and lite::sfu are replaced below.
    "lite": [],
    "": ["native", "electron", "android", "ios", "sim"],
}


def read(path):
    with open(os.path.join(REPO, path), encoding="utf-8") as f:
        return f.read()


def write(path, text):
    path = os.path.join(WS, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def mirror(path, own):
    """Symlinks what is in REPO/path into WS/path, apart from the names in own; drops stale links."""
    dst = os.path.join(WS, path)
    os.makedirs(dst, exist_ok=True)
    names = set(os.listdir(os.path.join(REPO, path))) - set(own)
    for name in os.listdir(dst):
        p = os.path.join(dst, name)
        if os.path.islink(p) and name not in names:
            os.unlink(p)
    for name in names:
        p = os.path.join(dst, name)
        if not os.path.lexists(p):
            os.symlink(os.path.join(REPO, path, name), p)


def cut(text, pattern, what):
    new, n = re.subn(pattern, "", text, flags=re.M | re.S)
    if not n:
        sys.stderr.write(f"gen.py: note: {what} not found\n")
    return new


def workspace_manifest():
    t = read("Cargo.toml")
    t = cut(t, r'^ *"webrtc-sys",\n', "member webrtc-sys")
    t = cut(t, r"^\[patch\.crates-io\]\n.*?(?=^\[|\Z)", "[patch.crates-io]")
    return t


def ringrtc_manifest():
    t = read("src/rust/Cargo.toml")
    t = cut(t, r"^\[\[(?:bin|test)\]\]\n.*?(?=^\[|\Z)", "[[bin]] and [[test]]")
    for c in CRATES:
        t = cut(t, rf"^{re.escape(c)}\s*=[^\n]*\n", f"dependency {c}")
    # bin/ and tests/ need the modules left out; a cdylib would need the WebRTC library.
    return t.replace(
        "[package]\n",
        "[package]\nautobins = false\nautotests = false\n",
        1,
    ).replace('crate-type = ["cdylib", "staticlib", "lib"]', 'crate-type = ["lib"]')


def build_rs():
    """In place of /repo's build.rs, which only finds and links the WebRTC C++ library, not here.

    No test that runs calls into it, but the linker still finds references to it (from
    webrtc::audio_device_module) in this crate's test binary. Its functions, as declared in
    webrtc/ffi, get address 0, in this crate's binaries only: a test that calls one crashes.
    """
    names, ffi = set(), "src/rust/src/webrtc/ffi"
    for f in os.listdir(os.path.join(REPO, ffi)):
        if f.endswith(".rs"):
            names.update(re.findall(r"\bfn (Rust_\w+)\([^;{]*;", read(f"{ffi}/{f}")))
    args = "".join(
        f'    println!("cargo:rustc-link-arg=-Wl,--defsym={n}=0");\n'
        for n in sorted(names)
    )
    return f'fn main() {{\n    println!("cargo:rerun-if-changed=build.rs");\n{args}}}\n'


def lock():
    """Starts from /repo's lock again when that changes; cargo drops what is left out, offline."""
    text = read("Cargo.lock")
    seed = os.path.join(WS, "Cargo.lock.repo")
    if not os.path.exists(seed) or open(seed, encoding="utf-8").read() != text:
        write("Cargo.lock", text)
        write("Cargo.lock.repo", text)


def lib_rs():
    t = read("src/rust/src/lib.rs")
    for mod in LEFT_OUT["core"] + LEFT_OUT["lite"]:
        t = cut(t, rf"^    pub mod {mod};\n", f"module {mod}")
    attrs = r"(?:^#\[cfg[^\n]*\n)?(?:^///[^\n]*\n)?"
    for mod in LEFT_OUT[""]:
        t = cut(
            t,
            attrs + rf"^(?:pub )?mod {mod}(?:;\n| \{{\n.*?^\}}\n)",
            f"module {mod}",
        )
    # lite::sfu uses zkgroup, but webrtc::media needs its DemuxId: take that line from the file.
    m = re.search(r"^pub type DemuxId = [^;]*;", read("src/rust/src/lite/sfu.rs"), re.M)
    alias = m.group(0) if m else ""
    t = t.replace("    pub mod sfu;\n", f"    pub mod sfu {{\n        {alias}\n    }}\n")
    # lite::call_links uses zkgroup, but its submodule base16 does not.
    t = t.replace(
        "    pub mod call_links;\n",
        "    pub mod call_links {\n        pub mod base16;\n    }\n",
    )
    return t


def main():
    mirror("", [".git", "target", "out", "Cargo.toml", "Cargo.lock", "rust-toolchain", "src"])
    mirror("src", ["rust"])
    mirror("src/rust", ["Cargo.toml", "build.rs", "src", "tests"])
    mirror("src/rust/src", ["lib.rs"])
    write("Cargo.toml", workspace_manifest())
    write("src/rust/Cargo.toml", ringrtc_manifest())
    write("src/rust/build.rs", build_rs())
    write("src/rust/src/lib.rs", lib_rs())
    lock()


main()
