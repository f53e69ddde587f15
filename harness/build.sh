#!/bin/bash
# build.sh SRC OUTDIR "-DCFG overrides (NAME=VALUE ...)" flavour   -> OUTDIR/lib.o OUTDIR/inc
# flavour: plain | tsan | asan | short (as the example platforms: short enumerations, unsigned char, -Os) |
#          packed (the same with packed structures, as the AVR settings of the examples) | clang |
#          lto (-O3, the library optimised as one unit) | insnlto, insnos, insnclang (for interrupts between
#          machine instructions, see insn.hpp) |
#          int16 (int of 16 bits: the code a compiler for such a processor makes of the source, see int16/) |
#          tearh, tearl (the same, with every access to memory a sequence of accesses to bytes, high or low byte first, that
#          are preemption points)
set -e
src=$1 out=$2 over=$3 flav=$4
rm -rf "$out"; mkdir -p "$out"
cp -r "$src" "$out/src"
here=$(dirname "$(realpath "$0")")
cfg=$(find "$out/src" -name modbus_config.h | head -1)
{ echo
  echo "#ifndef VERIF_OVERRIDES"; echo "#define VERIF_OVERRIDES"
  for o in $over; do echo "#undef ${o%%=*}"; echo "#define ${o%%=*} ${o#*=}"; done
  echo "#endif"
} >>"$cfg"
inc=$(find "$out/src" -name '*.h' -printf '-I%h\n' | sort -u | tr '\n' ' ')
echo "$inc -I$out/board" >"$out/inc"
if [ $flav = packed ]; then # the engines see the structures of the library, and only these, packed
  mkdir "$out/pack"
  for h in $(find "$out/src" -name '*.h'); do
    printf '#pragma pack(push, 1)\n#include "%s"\n#pragma pack(pop)\n' "$(realpath "$h")" >"$out/pack/$(basename "$h")"
  done
  echo "-I$out/pack $inc" >"$out/inc"
fi
cc=gcc
fl="-std=gnu11 -g -fno-common -fno-pic -fno-pie -fno-data-sections -ftrivial-auto-var-init=pattern -w"
case $flav in
plain) fl="$fl -O1" ;;
tsan) fl="$fl -O1 -fsanitize=thread -fno-inline" ;;
asan) fl="$fl -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer" ;;
short) fl="$fl -Os -fshort-enums -funsigned-char -funsigned-bitfields" ;;
packed) fl="$fl -Os -fshort-enums -funsigned-char -funsigned-bitfields -fpack-struct" ;;
clang) cc=clang fl="$fl -O2" ;;
lto) fl="$fl -O3 -flto" ;;
insnlto) fl="$fl -O3 -flto -fno-reorder-functions -fno-reorder-blocks-and-partition" ;;
insnos) fl="$fl -Os -fno-reorder-functions -fno-reorder-blocks-and-partition" ;;
insnclang) cc=clang fl="$fl -O2" ;;
int16|tearh|tearl) fl="-std=gnu11 -w -S -emit-llvm -ffreestanding -fno-builtin -fshort-enums -funsigned-char -Xclang -disable-O0-optnone" ;;
esac
case $flav in int16|tearh|tearl) i16=1 ;; *) i16= ;; esac
objs=
i=0
for c in $(find "$out/src" -name '*.c' | sort); do
  i=$((i+1)); o="$out/o$i.o"
  if [ -n "$i16" ]; then
    (
      set -e
      clang --target=msp430 $fl -nostdinc -isystem "$(clang -print-resource-dir)/include" -I"$here/int16" $inc "$c" -o "$o.16.ll"
      clang $fl -fno-pic -isystem "$(clang -print-resource-dir)/include" -I"$here/int16" $inc "$c" -o "$o.64.ll"
      python3 "$here/int16/retarget.py" "$o.16.ll" "$o.64.ll" "$o.ll"
      opt=-O1
      if [ $flav != int16 ]; then
        opt -passes=sroa -S "$o.ll" -o "$o.1.ll"
        python3 "$here/int16/tear.py" "$o.1.ll" "$o.ll" $([ $flav = tearh ] && echo high || echo low)
        opt=-O0
      fi
      clang -fno-pic -fno-pie -fno-common -w $opt -c "$o.ll" -o "$o"
    ) &
  else
    $cc $fl $inc -c "$c" -o "$o" &
  fi
  objs="$objs $o"
done
if [ -n "$BOARD_EXAMPLES" ]; then
  # the drivers of the examples, on modelled hardware; BOARD_REPAIRS names the repairs of known findings (board/repairs) to be
  # applied to the copies; one that no longer applies is noted for the engine, which keeps what it repairs from striking
  m=$BOARD_EXAMPLES/STM32G070RB_MODBUS_MASTER s=$BOARD_EXAMPLES/STM32G070RB_MODBUS_SLAVE
  mkdir -p "$out/board"
  find "$m" -name stm32g070xx.h -exec grep -hE '^#define +(USART|TIM|GPIO|RCC)_[A-Za-z0-9_]+ ' {} + >"$out/board/bits.h"
  for e in "$m" "$s"; do
    c=$(find "$e" -name modbus_driver_interface.c | head -1)
    mkdir -p "$(dirname "$out/examples/${c#$BOARD_EXAMPLES/}")"
    cp "$c" "$out/examples/${c#$BOARD_EXAMPLES/}"
  done
  for r in $BOARD_REPAIRS; do
    d=$here/board/repairs/$r.diff
    if patch -s -N -f -p1 -d "$out/examples" --dry-run <"$d" >/dev/null 2>&1; then patch -s -N -f -p1 -d "$out/examples" <"$d" >/dev/null
    else echo $r >>"$out/unrepaired"; fi
  done
  b=0
  for e in "$m" "$s"; do
    c=$(find "$e" -name modbus_driver_interface.c | head -1)
    c=$out/examples/${c#$BOARD_EXAMPLES/}
    x=$(find "$e" -name modbus_driver_config.h | head -1)
    (
      x="${fl#-std=gnu11} -I$here/board -I$out/board $inc -I$(dirname "$x") -DBOARD=$b -c $here/board/drv.cpp -o $out/drv$b.o"
      x="-std=gnu++17 -fno-exceptions -fno-rtti -fno-threadsafe-statics $x"
      g++ -fpermissive $x "-DDRIVER=\"$c\"" 2>"$out/drv$b.log" || clang++ $x -fno-sanitize=address,undefined "-DDRIVER=\"$c\"" || { cat "$out/drv$b.log" >&2; false; }
    ) &
    objs="$objs $out/drv$b.o"
    b=$((b+1))
  done
fi
[ -n "$i16" ] && gcc -O1 -fno-pic -fno-pie -fno-builtin -c "$here/int16/rt.c" -o "$out/rt.o" && objs="$objs $out/rt.o"
gcc -std=gnu11 -fno-pic -fno-pie -fno-common $inc -c "$here/cfg.c" -o "$out/cfg.o" &
for j in $(jobs -p); do wait $j; done
case $flav in
*lto) gcc -O3 -flto -fno-reorder-functions -fno-reorder-blocks-and-partition -fno-pic -fno-pie -r -flinker-output=nolto-rel -nostdlib -ftrivial-auto-var-init=pattern -w -o "$out/lib0.o" $objs ;;
*) ld -r -o "$out/lib0.o" $objs ;;
esac
case $flav in insn*) objcopy --rename-section .text=libtext "$out/lib0.o" ;; esac
objcopy --set-section-flags .bss=alloc,load,contents,data --rename-section .data=libdata --rename-section .bss=libbss "$out/lib0.o" "$out/lib.o"
