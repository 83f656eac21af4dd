from core import *
from arch import *
from scan import register_scan
P = Property('C23', 'Archive entries are read back as written')
P.modules = {'a': MODULE}
register(P, "model state is written", "model state is read", "blob is written", "blob is read", "file entry is written", "model state is installed")
register_scan(P, 'archive is loaded', 'metadata block is loaded', 'new archive is written', 'archive is closed', 'file is created')
P.native = {'src': 'c23.cpp', 'repo': ['src/hzip_storage/archive/archive.cpp', 'src/hzip_core/blob/blob.cpp'], 'libs': ['-lcrypto'], 'secs': 6, 'tsecs': 60}
P.bounded = ['the path maps (HZ_ArchiveTrie) behave as maps (sampled histories)', 'read_file assembles the blobs in order (sampled histories)']
