"""Nothing is prebuilt: every check compiles /repo's current tree itself. This only verifies the tools."""
import shutil, sys, os
missing = [t for t in ('gcc', 'g++', 'clang', 'python3') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'): os.makedirs(os.path.join(V, d), exist_ok=True)
print('ok')
