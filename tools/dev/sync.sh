set -e
git -C /verif pull -q --ff-only /tmp/w/v2 HEAD
git -C /repo pull -q --ff-only /tmp/w/r2 HEAD
git -C /verif log --oneline | head -2; git -C /repo log --oneline | head -2; git -C /verif status --short | head -3
