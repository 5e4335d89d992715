#!/bin/bash
# native.sh FEATURES REGEX TRIALS [SEEDS]: native trials of contract roots on the current tree
N=native; L=; case ",$1," in *,pyo3,*) N=native-py; L="-Clink-arg=-lpython3.12";; esac
cd /verif/contracts && PYO3_PYTHON=/usr/bin/python3.12 RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.work/$N RUSTFLAGS="-Awarnings -Cdebug-assertions=on $L" cargo build -q --offline --no-default-features --features $1 || exit 1
cp /verif/.work/$N/debug/vh-replay /verif/.work/vhr
for s in ${4:-1}; do /verif/.work/vhr | grep -E "$2" | xargs -P 8 -I{} bash -c "echo {} \$(/verif/.work/vhr {} --seed $s --trials $3 --seconds 60 | tail -1 | cut -c1-${W:-500})"; done
