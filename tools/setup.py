"""Builds the replay crate once, so that the first check is not slow. Checks
rebuild whatever changed."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import fresh
fresh.prepare('/repo', os.path.join(V, '.build', 'target'))
env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(V, '.build', 'target'), RUSTFLAGS='--cap-lints allow --cfg papyri_verif')
p = subprocess.run(['cargo', 'build', '--offline', '--manifest-path', os.path.join(V, 'replay', 'Cargo.toml')], env=env)
sys.exit(0 if subprocess.run(['verus', '--version']).returncode == 0 else 1)
