// LoongArch encodings: name, match, mask, operand format (from the GNU binutils 2.42 opcode table; aliases removed)
{"movgr2scr",0x00000800u,0xfffffc1cu,"cr0:2,r5:5"},
{"movscr2gr",0x00000c00u,0xffffff80u,"r0:5,cr5:2"},
{"clo.w",0x00001000u,0xfffffc00u,"r0:5,r5:5"},
{"clz.w",0x00001400u,0xfffffc00u,"r0:5,r5:5"},
{"cto.w",0x00001800u,0xfffffc00u,"r0:5,r5:5"},
{"ctz.w",0x00001c00u,0xfffffc00u,"r0:5,r5:5"},
{"clo.d",0x00002000u,0xfffffc00u,"r0:5,r5:5"},
{"clz.d",0x00002400u,0xfffffc00u,"r0:5,r5:5"},
{"cto.d",0x00002800u,0xfffffc00u,"r0:5,r5:5"},
{"ctz.d",0x00002c00u,0xfffffc00u,"r0:5,r5:5"},
{"revb.2h",0x00003000u,0xfffffc00u,"r0:5,r5:5"},
{"revb.4h",0x00003400u,0xfffffc00u,"r0:5,r5:5"},
{"revb.2w",0x00003800u,0xfffffc00u,"r0:5,r5:5"},
{"revb.d",0x00003c00u,0xfffffc00u,"r0:5,r5:5"},
{"revh.2w",0x00004000u,0xfffffc00u,"r0:5,r5:5"},
{"revh.d",0x00004400u,0xfffffc00u,"r0:5,r5:5"},
{"bitrev.4b",0x00004800u,0xfffffc00u,"r0:5,r5:5"},
{"bitrev.8b",0x00004c00u,0xfffffc00u,"r0:5,r5:5"},
{"bitrev.w",0x00005000u,0xfffffc00u,"r0:5,r5:5"},
{"bitrev.d",0x00005400u,0xfffffc00u,"r0:5,r5:5"},
{"ext.w.h",0x00005800u,0xfffffc00u,"r0:5,r5:5"},
{"ext.w.b",0x00005c00u,0xfffffc00u,"r0:5,r5:5"},
{"rdtimel.w",0x00006000u,0xfffffc00u,"r0:5,r5:5"},
{"rdtimeh.w",0x00006400u,0xfffffc00u,"r0:5,r5:5"},
{"rdtime.d",0x00006800u,0xfffffc00u,"r0:5,r5:5"},
{"cpucfg",0x00006c00u,0xfffffc00u,"r0:5,r5:5"},
{"x86mttop",0x00007000u,0xffffff1fu,"u5:3"},
{"x86mftop",0x00007400u,0xffffffe0u,"r0:5"},
{"setx86loope",0x00007800u,0xfffffc00u,"r0:5,r5:5"},
{"setx86loopne",0x00007c00u,0xfffffc00u,"r0:5,r5:5"},
{"x86inc.b",0x00008000u,0xfffffc1fu,"r5:5"},
{"x86inc.h",0x00008001u,0xfffffc1fu,"r5:5"},
{"x86inc.w",0x00008002u,0xfffffc1fu,"r5:5"},
{"x86inc.d",0x00008003u,0xfffffc1fu,"r5:5"},
{"x86dec.b",0x00008004u,0xfffffc1fu,"r5:5"},
{"x86dec.h",0x00008005u,0xfffffc1fu,"r5:5"},
{"x86dec.w",0x00008006u,0xfffffc1fu,"r5:5"},
{"x86dec.d",0x00008007u,0xfffffc1fu,"r5:5"},
{"x86settm",0x00008008u,0xffffffffu,""},
{"x86inctop",0x00008009u,0xffffffffu,""},
{"x86clrtm",0x00008028u,0xffffffffu,""},
{"x86dectop",0x00008029u,0xffffffffu,""},
{"asrtle.d",0x00010000u,0xffff801fu,"r5:5,r10:5"},
{"asrtgt.d",0x00018000u,0xffff801fu,"r5:5,r10:5"},
{"alsl.w",0x00040000u,0xfffe0000u,"r0:5,r5:5,r10:5,u15:2+1"},
{"alsl.wu",0x00060000u,0xfffe0000u,"r0:5,r5:5,r10:5,u15:2+1"},
{"bytepick.w",0x00080000u,0xfffe0000u,"r0:5,r5:5,r10:5,u15:2"},
{"bytepick.d",0x000c0000u,0xfffc0000u,"r0:5,r5:5,r10:5,u15:3"},
{"add.w",0x00100000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"add.d",0x00108000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sub.w",0x00110000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sub.d",0x00118000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"slt",0x00120000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sltu",0x00128000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"maskeqz",0x00130000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"masknez",0x00138000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"nor",0x00140000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"and",0x00148000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"or",0x00150000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"xor",0x00158000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"orn",0x00160000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"andn",0x00168000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sll.w",0x00170000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"srl.w",0x00178000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sra.w",0x00180000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sll.d",0x00188000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"srl.d",0x00190000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sra.d",0x00198000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rotr.b",0x001a0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rotr.h",0x001a8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rotr.w",0x001b0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rotr.d",0x001b8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mul.w",0x001c0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulh.w",0x001c8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulh.wu",0x001d0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mul.d",0x001d8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulh.d",0x001e0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulh.du",0x001e8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulw.d.w",0x001f0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mulw.d.wu",0x001f8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"div.w",0x00200000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mod.w",0x00208000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"div.wu",0x00210000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mod.wu",0x00218000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"div.d",0x00220000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mod.d",0x00228000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"div.du",0x00230000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"mod.du",0x00238000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crc.w.b.w",0x00240000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crc.w.h.w",0x00248000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crc.w.w.w",0x00250000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crc.w.d.w",0x00258000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crcc.w.b.w",0x00260000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crcc.w.h.w",0x00268000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crcc.w.w.w",0x00270000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"crcc.w.d.w",0x00278000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"addu12i.w",0x00290000u,0xffff8000u,"r0:5,r5:5,s10:5"},
{"addu12i.d",0x00298000u,0xffff8000u,"r0:5,r5:5,s10:5"},
{"break",0x002a0000u,0xffff8000u,"u0:15"},
{"dbcl",0x002a8000u,0xffff8000u,"u0:15"},
{"syscall",0x002b0000u,0xffff8000u,"u0:15"},
{"hvcl",0x002b8000u,0xffff8000u,"u0:15"},
{"alsl.d",0x002c0000u,0xfffe0000u,"r0:5,r5:5,r10:5,u15:2+1"},
{"adc.b",0x00300000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"adc.h",0x00308000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"adc.w",0x00310000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"adc.d",0x00318000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sbc.b",0x00320000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sbc.h",0x00328000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sbc.w",0x00330000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"sbc.d",0x00338000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rcr.b",0x00340000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rcr.h",0x00348000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rcr.w",0x00350000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"rcr.d",0x00358000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"armmove",0x00364000u,0xffffc000u,"r0:5,r5:5,u10:4"},
{"setx86j",0x00368000u,0xffffc3e0u,"r0:5,u10:4"},
{"setarmj",0x0036c000u,0xffffc3e0u,"r0:5,u10:4"},
{"armadd.w",0x00370010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armsub.w",0x00378010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armadc.w",0x00380010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armsbc.w",0x00388010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armand.w",0x00390010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armor.w",0x00398010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armxor.w",0x003a0010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armsll.w",0x003a8010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armsrl.w",0x003b0010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armsra.w",0x003b8010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armrotr.w",0x003c0010u,0xffff8010u,"r5:5,r10:5,u0:4"},
{"armslli.w",0x003c8010u,0xffff8010u,"r5:5,u10:5,u0:4"},
{"armsrli.w",0x003d0010u,0xffff8010u,"r5:5,u10:5,u0:4"},
{"armsrai.w",0x003d8010u,0xffff8010u,"r5:5,u10:5,u0:4"},
{"armrotri.w",0x003e0010u,0xffff8010u,"r5:5,u10:5,u0:4"},
{"x86mul.b",0x003e8000u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.h",0x003e8001u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.w",0x003e8002u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.d",0x003e8003u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.bu",0x003e8004u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.hu",0x003e8005u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.wu",0x003e8006u,0xffff801fu,"r5:5,r10:5"},
{"x86mul.du",0x003e8007u,0xffff801fu,"r5:5,r10:5"},
{"x86add.wu",0x003f0000u,0xffff801fu,"r5:5,r10:5"},
{"x86add.du",0x003f0001u,0xffff801fu,"r5:5,r10:5"},
{"x86sub.wu",0x003f0002u,0xffff801fu,"r5:5,r10:5"},
{"x86sub.du",0x003f0003u,0xffff801fu,"r5:5,r10:5"},
{"x86add.b",0x003f0004u,0xffff801fu,"r5:5,r10:5"},
{"x86add.h",0x003f0005u,0xffff801fu,"r5:5,r10:5"},
{"x86add.w",0x003f0006u,0xffff801fu,"r5:5,r10:5"},
{"x86add.d",0x003f0007u,0xffff801fu,"r5:5,r10:5"},
{"x86sub.b",0x003f0008u,0xffff801fu,"r5:5,r10:5"},
{"x86sub.h",0x003f0009u,0xffff801fu,"r5:5,r10:5"},
{"x86sub.w",0x003f000au,0xffff801fu,"r5:5,r10:5"},
{"x86sub.d",0x003f000bu,0xffff801fu,"r5:5,r10:5"},
{"x86adc.b",0x003f000cu,0xffff801fu,"r5:5,r10:5"},
{"x86adc.h",0x003f000du,0xffff801fu,"r5:5,r10:5"},
{"x86adc.w",0x003f000eu,0xffff801fu,"r5:5,r10:5"},
{"x86adc.d",0x003f000fu,0xffff801fu,"r5:5,r10:5"},
{"x86sbc.b",0x003f0010u,0xffff801fu,"r5:5,r10:5"},
{"x86sbc.h",0x003f0011u,0xffff801fu,"r5:5,r10:5"},
{"x86sbc.w",0x003f0012u,0xffff801fu,"r5:5,r10:5"},
{"x86sbc.d",0x003f0013u,0xffff801fu,"r5:5,r10:5"},
{"x86sll.b",0x003f0014u,0xffff801fu,"r5:5,r10:5"},
{"x86sll.h",0x003f0015u,0xffff801fu,"r5:5,r10:5"},
{"x86sll.w",0x003f0016u,0xffff801fu,"r5:5,r10:5"},
{"x86sll.d",0x003f0017u,0xffff801fu,"r5:5,r10:5"},
{"x86srl.b",0x003f0018u,0xffff801fu,"r5:5,r10:5"},
{"x86srl.h",0x003f0019u,0xffff801fu,"r5:5,r10:5"},
{"x86srl.w",0x003f001au,0xffff801fu,"r5:5,r10:5"},
{"x86srl.d",0x003f001bu,0xffff801fu,"r5:5,r10:5"},
{"x86sra.b",0x003f001cu,0xffff801fu,"r5:5,r10:5"},
{"x86sra.h",0x003f001du,0xffff801fu,"r5:5,r10:5"},
{"x86sra.w",0x003f001eu,0xffff801fu,"r5:5,r10:5"},
{"x86sra.d",0x003f001fu,0xffff801fu,"r5:5,r10:5"},
{"x86rotr.b",0x003f8000u,0xffff801fu,"r5:5,r10:5"},
{"x86rotr.h",0x003f8001u,0xffff801fu,"r5:5,r10:5"},
{"x86rotr.d",0x003f8002u,0xffff801fu,"r5:5,r10:5"},
{"x86rotr.w",0x003f8003u,0xffff801fu,"r5:5,r10:5"},
{"x86rotl.b",0x003f8004u,0xffff801fu,"r5:5,r10:5"},
{"x86rotl.h",0x003f8005u,0xffff801fu,"r5:5,r10:5"},
{"x86rotl.w",0x003f8006u,0xffff801fu,"r5:5,r10:5"},
{"x86rotl.d",0x003f8007u,0xffff801fu,"r5:5,r10:5"},
{"x86rcr.b",0x003f8008u,0xffff801fu,"r5:5,r10:5"},
{"x86rcr.h",0x003f8009u,0xffff801fu,"r5:5,r10:5"},
{"x86rcr.w",0x003f800au,0xffff801fu,"r5:5,r10:5"},
{"x86rcr.d",0x003f800bu,0xffff801fu,"r5:5,r10:5"},
{"x86rcl.b",0x003f800cu,0xffff801fu,"r5:5,r10:5"},
{"x86rcl.h",0x003f800du,0xffff801fu,"r5:5,r10:5"},
{"x86rcl.w",0x003f800eu,0xffff801fu,"r5:5,r10:5"},
{"x86rcl.d",0x003f800fu,0xffff801fu,"r5:5,r10:5"},
{"x86and.b",0x003f8010u,0xffff801fu,"r5:5,r10:5"},
{"x86and.h",0x003f8011u,0xffff801fu,"r5:5,r10:5"},
{"x86and.w",0x003f8012u,0xffff801fu,"r5:5,r10:5"},
{"x86and.d",0x003f8013u,0xffff801fu,"r5:5,r10:5"},
{"x86or.b",0x003f8014u,0xffff801fu,"r5:5,r10:5"},
{"x86or.h",0x003f8015u,0xffff801fu,"r5:5,r10:5"},
{"x86or.w",0x003f8016u,0xffff801fu,"r5:5,r10:5"},
{"x86or.d",0x003f8017u,0xffff801fu,"r5:5,r10:5"},
{"x86xor.b",0x003f8018u,0xffff801fu,"r5:5,r10:5"},
{"x86xor.h",0x003f8019u,0xffff801fu,"r5:5,r10:5"},
{"x86xor.w",0x003f801au,0xffff801fu,"r5:5,r10:5"},
{"x86xor.d",0x003f801bu,0xffff801fu,"r5:5,r10:5"},
{"armnot.w",0x003fc01cu,0xffffc01fu,"r5:5,u10:4"},
{"armmov.w",0x003fc01du,0xffffc01fu,"r5:5,u10:4"},
{"armmov.d",0x003fc01eu,0xffffc01fu,"r5:5,u10:4"},
{"armrrx.w",0x003fc01fu,0xffffc01fu,"r5:5,u10:4"},
{"slli.w",0x00408000u,0xffff8000u,"r0:5,r5:5,u10:5"},
{"slli.d",0x00410000u,0xffff0000u,"r0:5,r5:5,u10:6"},
{"srli.w",0x00448000u,0xffff8000u,"r0:5,r5:5,u10:5"},
{"srli.d",0x00450000u,0xffff0000u,"r0:5,r5:5,u10:6"},
{"srai.w",0x00488000u,0xffff8000u,"r0:5,r5:5,u10:5"},
{"srai.d",0x00490000u,0xffff0000u,"r0:5,r5:5,u10:6"},
{"rotri.b",0x004c2000u,0xffffe000u,"r0:5,r5:5,u10:3"},
{"rotri.h",0x004c4000u,0xffffc000u,"r0:5,r5:5,u10:4"},
{"rotri.w",0x004c8000u,0xffff8000u,"r0:5,r5:5,u10:5"},
{"rotri.d",0x004d0000u,0xffff0000u,"r0:5,r5:5,u10:6"},
{"rcri.b",0x00502000u,0xffffe000u,"r0:5,r5:5,u10:3"},
{"rcri.h",0x00504000u,0xffffc000u,"r0:5,r5:5,u10:4"},
{"rcri.w",0x00508000u,0xffff8000u,"r0:5,r5:5,u10:5"},
{"rcri.d",0x00510000u,0xffff0000u,"r0:5,r5:5,u10:6"},
{"x86slli.b",0x00542000u,0xffffe01fu,"r5:5,u10:3"},
{"x86srli.b",0x00542004u,0xffffe01fu,"r5:5,u10:3"},
{"x86srai.b",0x00542008u,0xffffe01fu,"r5:5,u10:3"},
{"x86rotri.b",0x0054200cu,0xffffe01fu,"r5:5,u10:3"},
{"x86rcri.b",0x00542010u,0xffffe01fu,"r5:5,u10:3"},
{"x86rotli.b",0x00542014u,0xffffe01fu,"r5:5,u10:3"},
{"x86rcli.b",0x00542018u,0xffffe01fu,"r5:5,u10:3"},
{"x86slli.h",0x00544001u,0xffffc01fu,"r5:5,u10:4"},
{"x86srli.h",0x00544005u,0xffffc01fu,"r5:5,u10:4"},
{"x86srai.h",0x00544009u,0xffffc01fu,"r5:5,u10:4"},
{"x86rotri.h",0x0054400du,0xffffc01fu,"r5:5,u10:4"},
{"x86rcri.h",0x00544011u,0xffffc01fu,"r5:5,u10:4"},
{"x86rotli.h",0x00544015u,0xffffc01fu,"r5:5,u10:4"},
{"x86rcli.h",0x00544019u,0xffffc01fu,"r5:5,u10:4"},
{"x86slli.w",0x00548002u,0xffff801fu,"r5:5,u10:5"},
{"x86srli.w",0x00548006u,0xffff801fu,"r5:5,u10:5"},
{"x86srai.w",0x0054800au,0xffff801fu,"r5:5,u10:5"},
{"x86rotri.w",0x0054800eu,0xffff801fu,"r5:5,u10:5"},
{"x86rcri.w",0x00548012u,0xffff801fu,"r5:5,u10:5"},
{"x86rotli.w",0x00548016u,0xffff801fu,"r5:5,u10:5"},
{"x86rcli.w",0x0054801au,0xffff801fu,"r5:5,u10:5"},
{"x86slli.d",0x00550003u,0xffff001fu,"r5:5,u10:6"},
{"x86srli.d",0x00550007u,0xffff001fu,"r5:5,u10:6"},
{"x86srai.d",0x0055000bu,0xffff001fu,"r5:5,u10:6"},
{"x86rotri.d",0x0055000fu,0xffff001fu,"r5:5,u10:6"},
{"x86rcri.d",0x00550013u,0xffff001fu,"r5:5,u10:6"},
{"x86rotli.d",0x00550017u,0xffff001fu,"r5:5,u10:6"},
{"x86rcli.d",0x0055001bu,0xffff001fu,"r5:5,u10:6"},
{"x86settag",0x00580000u,0xfffc0000u,"r0:5,u5:5,u10:8"},
{"x86mfflag",0x005c0000u,0xfffc03e0u,"r0:5,u10:8"},
{"x86mtflag",0x005c0020u,0xfffc03e0u,"r0:5,u10:8"},
{"armmfflag",0x005c0040u,0xfffc03e0u,"r0:5,u10:8"},
{"armmtflag",0x005c0060u,0xfffc03e0u,"r0:5,u10:8"},
{"bstrins.w",0x00600000u,0xffe08000u,"r0:5,r5:5,u16:5,u10:5"},
{"bstrpick.w",0x00608000u,0xffe08000u,"r0:5,r5:5,u16:5,u10:5"},
{"bstrins.d",0x00800000u,0xffc00000u,"r0:5,r5:5,u16:6,u10:6"},
{"bstrpick.d",0x00c00000u,0xffc00000u,"r0:5,r5:5,u16:6,u10:6"},
{"fadd.s",0x01008000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fadd.d",0x01010000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fsub.s",0x01028000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fsub.d",0x01030000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmul.s",0x01048000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmul.d",0x01050000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fdiv.s",0x01068000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fdiv.d",0x01070000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmax.s",0x01088000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmax.d",0x01090000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmin.s",0x010a8000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmin.d",0x010b0000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmaxa.s",0x010c8000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmaxa.d",0x010d0000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmina.s",0x010e8000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fmina.d",0x010f0000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fscaleb.s",0x01108000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fscaleb.d",0x01110000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fcopysign.s",0x01128000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fcopysign.d",0x01130000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fabs.s",0x01140400u,0xfffffc00u,"f0:5,f5:5"},
{"fabs.d",0x01140800u,0xfffffc00u,"f0:5,f5:5"},
{"fneg.s",0x01141400u,0xfffffc00u,"f0:5,f5:5"},
{"fneg.d",0x01141800u,0xfffffc00u,"f0:5,f5:5"},
{"flogb.s",0x01142400u,0xfffffc00u,"f0:5,f5:5"},
{"flogb.d",0x01142800u,0xfffffc00u,"f0:5,f5:5"},
{"fclass.s",0x01143400u,0xfffffc00u,"f0:5,f5:5"},
{"fclass.d",0x01143800u,0xfffffc00u,"f0:5,f5:5"},
{"fsqrt.s",0x01144400u,0xfffffc00u,"f0:5,f5:5"},
{"fsqrt.d",0x01144800u,0xfffffc00u,"f0:5,f5:5"},
{"frecip.s",0x01145400u,0xfffffc00u,"f0:5,f5:5"},
{"frecip.d",0x01145800u,0xfffffc00u,"f0:5,f5:5"},
{"frsqrt.s",0x01146400u,0xfffffc00u,"f0:5,f5:5"},
{"frsqrt.d",0x01146800u,0xfffffc00u,"f0:5,f5:5"},
{"frecipe.s",0x01147400u,0xfffffc00u,"f0:5,f5:5"},
{"frecipe.d",0x01147800u,0xfffffc00u,"f0:5,f5:5"},
{"frsqrte.s",0x01148400u,0xfffffc00u,"f0:5,f5:5"},
{"frsqrte.d",0x01148800u,0xfffffc00u,"f0:5,f5:5"},
{"fmov.s",0x01149400u,0xfffffc00u,"f0:5,f5:5"},
{"fmov.d",0x01149800u,0xfffffc00u,"f0:5,f5:5"},
{"movgr2fr.w",0x0114a400u,0xfffffc00u,"f0:5,r5:5"},
{"movgr2fr.d",0x0114a800u,0xfffffc00u,"f0:5,r5:5"},
{"movgr2frh.w",0x0114ac00u,0xfffffc00u,"f0:5,r5:5"},
{"movfr2gr.s",0x0114b400u,0xfffffc00u,"r0:5,f5:5"},
{"movfr2gr.d",0x0114b800u,0xfffffc00u,"r0:5,f5:5"},
{"movfrh2gr.s",0x0114bc00u,0xfffffc00u,"r0:5,f5:5"},
{"movgr2fcsr",0x0114c000u,0xfffffc1cu,"fc0:2,r5:5"},
{"movfcsr2gr",0x0114c800u,0xffffff80u,"r0:5,fc5:2"},
{"movfr2cf",0x0114d000u,0xfffffc18u,"c0:3,f5:5"},
{"movcf2fr",0x0114d400u,0xffffff00u,"f0:5,c5:3"},
{"movgr2cf",0x0114d800u,0xfffffc18u,"c0:3,r5:5"},
{"movcf2gr",0x0114dc00u,0xffffff00u,"r0:5,c5:3"},
{"fcvt.ld.d",0x0114e000u,0xfffffc00u,"f0:5,f5:5"},
{"fcvt.ud.d",0x0114e400u,0xfffffc00u,"f0:5,f5:5"},
{"fcvt.d.ld",0x01150000u,0xffff8000u,"f0:5,f5:5,f10:5"},
{"fcvt.s.d",0x01191800u,0xfffffc00u,"f0:5,f5:5"},
{"fcvt.d.s",0x01192400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrm.w.s",0x011a0400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrm.w.d",0x011a0800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrm.l.s",0x011a2400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrm.l.d",0x011a2800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrp.w.s",0x011a4400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrp.w.d",0x011a4800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrp.l.s",0x011a6400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrp.l.d",0x011a6800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrz.w.s",0x011a8400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrz.w.d",0x011a8800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrz.l.s",0x011aa400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrz.l.d",0x011aa800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrne.w.s",0x011ac400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrne.w.d",0x011ac800u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrne.l.s",0x011ae400u,0xfffffc00u,"f0:5,f5:5"},
{"ftintrne.l.d",0x011ae800u,0xfffffc00u,"f0:5,f5:5"},
{"ftint.w.s",0x011b0400u,0xfffffc00u,"f0:5,f5:5"},
{"ftint.w.d",0x011b0800u,0xfffffc00u,"f0:5,f5:5"},
{"ftint.l.s",0x011b2400u,0xfffffc00u,"f0:5,f5:5"},
{"ftint.l.d",0x011b2800u,0xfffffc00u,"f0:5,f5:5"},
{"ffint.s.w",0x011d1000u,0xfffffc00u,"f0:5,f5:5"},
{"ffint.s.l",0x011d1800u,0xfffffc00u,"f0:5,f5:5"},
{"ffint.d.w",0x011d2000u,0xfffffc00u,"f0:5,f5:5"},
{"ffint.d.l",0x011d2800u,0xfffffc00u,"f0:5,f5:5"},
{"frint.s",0x011e4400u,0xfffffc00u,"f0:5,f5:5"},
{"frint.d",0x011e4800u,0xfffffc00u,"f0:5,f5:5"},
{"slti",0x02000000u,0xffc00000u,"r0:5,r5:5,s10:12"},
{"sltui",0x02400000u,0xffc00000u,"r0:5,r5:5,s10:12"},
{"addi.w",0x02800000u,0xffc00000u,"r0:5,r5:5,s10:12"},
{"addi.d",0x02c00000u,0xffc00000u,"r0:5,r5:5,s10:12"},
{"lu52i.d",0x03000000u,0xffc00000u,"r0:5,r5:5,s10:12"},
{"andi",0x03400000u,0xffc00000u,"r0:5,r5:5,u10:12"},
{"ori",0x03800000u,0xffc00000u,"r0:5,r5:5,u10:12"},
{"xori",0x03c00000u,0xffc00000u,"r0:5,r5:5,u10:12"},
{"csrxchg",0x04000000u,0xff000000u,"r0:5,r5:5,u10:14"},
{"cacop",0x06000000u,0xffc00000u,"u0:5,r5:5,s10:12"},
{"lddir",0x06400000u,0xfffc0000u,"r0:5,r5:5,u10:8"},
{"ldpte",0x06440000u,0xfffc001fu,"r5:5,u10:8"},
{"iocsrrd.b",0x06480000u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrrd.h",0x06480400u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrrd.w",0x06480800u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrrd.d",0x06480c00u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrwr.b",0x06481000u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrwr.h",0x06481400u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrwr.w",0x06481800u,0xfffffc00u,"r0:5,r5:5"},
{"iocsrwr.d",0x06481c00u,0xfffffc00u,"r0:5,r5:5"},
{"tlbclr",0x06482000u,0xffffffffu,""},
{"tlbflush",0x06482400u,0xffffffffu,""},
{"gtlbflush",0x06482401u,0xffffffffu,""},
{"tlbsrch",0x06482800u,0xffffffffu,""},
{"tlbrd",0x06482c00u,0xffffffffu,""},
{"tlbwr",0x06483000u,0xffffffffu,""},
{"tlbfill",0x06483400u,0xffffffffu,""},
{"ertn",0x06483800u,0xffffffffu,""},
{"idle",0x06488000u,0xffff8000u,"u0:15"},
{"invtlb",0x06498000u,0xffff8000u,"u0:5,r5:5,r10:5"},
{"fmadd.s",0x08100000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fmadd.d",0x08200000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fmsub.s",0x08500000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fmsub.d",0x08600000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fnmadd.s",0x08900000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fnmadd.d",0x08a00000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fnmsub.s",0x08d00000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"fnmsub.d",0x08e00000u,0xfff00000u,"f0:5,f5:5,f10:5,f15:5"},
{"vfmadd.s",0x09100000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfmadd.d",0x09200000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfmsub.s",0x09500000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfmsub.d",0x09600000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfnmadd.s",0x09900000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfnmadd.d",0x09a00000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfnmsub.s",0x09d00000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"vfnmsub.d",0x09e00000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"xvfmadd.s",0x0a100000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfmadd.d",0x0a200000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfmsub.s",0x0a500000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfmsub.d",0x0a600000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfnmadd.s",0x0a900000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfnmadd.d",0x0aa00000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfnmsub.s",0x0ad00000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"xvfnmsub.d",0x0ae00000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"fcmp.caf.s",0x0c100000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.saf.s",0x0c108000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.clt.s",0x0c110000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.slt.s",0x0c118000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.ceq.s",0x0c120000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.seq.s",0x0c128000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cle.s",0x0c130000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sle.s",0x0c138000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cun.s",0x0c140000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sun.s",0x0c148000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cult.s",0x0c150000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sult.s",0x0c158000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cueq.s",0x0c160000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sueq.s",0x0c168000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cule.s",0x0c170000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sule.s",0x0c178000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cne.s",0x0c180000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sne.s",0x0c188000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cor.s",0x0c1a0000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sor.s",0x0c1a8000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cune.s",0x0c1c0000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sune.s",0x0c1c8000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.caf.d",0x0c200000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.saf.d",0x0c208000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.clt.d",0x0c210000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.slt.d",0x0c218000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.ceq.d",0x0c220000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.seq.d",0x0c228000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cle.d",0x0c230000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sle.d",0x0c238000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cun.d",0x0c240000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sun.d",0x0c248000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cult.d",0x0c250000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sult.d",0x0c258000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cueq.d",0x0c260000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sueq.d",0x0c268000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cule.d",0x0c270000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sule.d",0x0c278000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cne.d",0x0c280000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sne.d",0x0c288000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cor.d",0x0c2a0000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sor.d",0x0c2a8000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.cune.d",0x0c2c0000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"fcmp.sune.d",0x0c2c8000u,0xffff8018u,"c0:3,f5:5,f10:5"},
{"vfcmp.caf.s",0x0c500000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.saf.s",0x0c508000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.clt.s",0x0c510000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.slt.s",0x0c518000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.ceq.s",0x0c520000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.seq.s",0x0c528000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cle.s",0x0c530000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sle.s",0x0c538000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cun.s",0x0c540000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sun.s",0x0c548000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cult.s",0x0c550000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sult.s",0x0c558000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cueq.s",0x0c560000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sueq.s",0x0c568000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cule.s",0x0c570000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sule.s",0x0c578000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cne.s",0x0c580000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sne.s",0x0c588000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cor.s",0x0c5a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sor.s",0x0c5a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cune.s",0x0c5c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sune.s",0x0c5c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.caf.d",0x0c600000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.saf.d",0x0c608000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.clt.d",0x0c610000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.slt.d",0x0c618000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.ceq.d",0x0c620000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.seq.d",0x0c628000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cle.d",0x0c630000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sle.d",0x0c638000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cun.d",0x0c640000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sun.d",0x0c648000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cult.d",0x0c650000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sult.d",0x0c658000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cueq.d",0x0c660000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sueq.d",0x0c668000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cule.d",0x0c670000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sule.d",0x0c678000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cne.d",0x0c680000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sne.d",0x0c688000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cor.d",0x0c6a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sor.d",0x0c6a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.cune.d",0x0c6c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcmp.sune.d",0x0c6c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"xvfcmp.caf.s",0x0c900000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.saf.s",0x0c908000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.clt.s",0x0c910000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.slt.s",0x0c918000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.ceq.s",0x0c920000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.seq.s",0x0c928000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cle.s",0x0c930000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sle.s",0x0c938000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cun.s",0x0c940000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sun.s",0x0c948000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cult.s",0x0c950000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sult.s",0x0c958000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cueq.s",0x0c960000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sueq.s",0x0c968000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cule.s",0x0c970000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sule.s",0x0c978000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cne.s",0x0c980000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sne.s",0x0c988000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cor.s",0x0c9a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sor.s",0x0c9a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cune.s",0x0c9c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sune.s",0x0c9c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.caf.d",0x0ca00000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.saf.d",0x0ca08000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.clt.d",0x0ca10000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.slt.d",0x0ca18000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.ceq.d",0x0ca20000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.seq.d",0x0ca28000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cle.d",0x0ca30000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sle.d",0x0ca38000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cun.d",0x0ca40000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sun.d",0x0ca48000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cult.d",0x0ca50000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sult.d",0x0ca58000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cueq.d",0x0ca60000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sueq.d",0x0ca68000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cule.d",0x0ca70000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sule.d",0x0ca78000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cne.d",0x0ca80000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sne.d",0x0ca88000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cor.d",0x0caa0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sor.d",0x0caa8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.cune.d",0x0cac0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcmp.sune.d",0x0cac8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"fsel",0x0d000000u,0xfffc0000u,"f0:5,f5:5,f10:5,c15:3"},
{"vbitsel.v",0x0d100000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"xvbitsel.v",0x0d200000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"vshuf.b",0x0d500000u,0xfff00000u,"v0:5,v5:5,v10:5,v15:5"},
{"xvshuf.b",0x0d600000u,0xfff00000u,"x0:5,x5:5,x10:5,x15:5"},
{"addu16i.d",0x10000000u,0xfc000000u,"r0:5,r5:5,s10:16"},
{"lu12i.w",0x14000000u,0xfe000000u,"r0:5,s5:20"},
{"lu32i.d",0x16000000u,0xfe000000u,"r0:5,s5:20"},
{"pcaddi",0x18000000u,0xfe000000u,"r0:5,s5:20"},
{"pcalau12i",0x1a000000u,0xfe000000u,"r0:5,s5:20"},
{"pcaddu12i",0x1c000000u,0xfe000000u,"r0:5,s5:20"},
{"pcaddu18i",0x1e000000u,0xfe000000u,"r0:5,s5:20"},
{"ll.w",0x20000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"sc.w",0x21000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"ll.d",0x22000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"sc.d",0x23000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"ldptr.w",0x24000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"stptr.w",0x25000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"ldptr.d",0x26000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"stptr.d",0x27000000u,0xff000000u,"r0:5,r5:5,so10:14<<2"},
{"ld.b",0x28000000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.h",0x28400000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.w",0x28800000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.d",0x28c00000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"st.b",0x29000000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"st.h",0x29400000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"st.w",0x29800000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"st.d",0x29c00000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.bu",0x2a000000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.hu",0x2a400000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ld.wu",0x2a800000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"preld",0x2ac00000u,0xffc00000u,"u0:5,r5:5,so10:12"},
{"fld.s",0x2b000000u,0xffc00000u,"f0:5,r5:5,so10:12"},
{"fst.s",0x2b400000u,0xffc00000u,"f0:5,r5:5,so10:12"},
{"fld.d",0x2b800000u,0xffc00000u,"f0:5,r5:5,so10:12"},
{"fst.d",0x2bc00000u,0xffc00000u,"f0:5,r5:5,so10:12"},
{"vld",0x2c000000u,0xffc00000u,"v0:5,r5:5,so10:12"},
{"vst",0x2c400000u,0xffc00000u,"v0:5,r5:5,so10:12"},
{"xvld",0x2c800000u,0xffc00000u,"x0:5,r5:5,so10:12"},
{"xvst",0x2cc00000u,0xffc00000u,"x0:5,r5:5,so10:12"},
{"ldl.w",0x2e000000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ldr.w",0x2e400000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ldl.d",0x2e800000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"ldr.d",0x2ec00000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"stl.w",0x2f000000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"str.w",0x2f400000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"stl.d",0x2f800000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"str.d",0x2fc00000u,0xffc00000u,"r0:5,r5:5,so10:12"},
{"vldrepl.d",0x30100000u,0xfff80000u,"v0:5,r5:5,so10:9<<3"},
{"vldrepl.w",0x30200000u,0xfff00000u,"v0:5,r5:5,so10:10<<2"},
{"vldrepl.h",0x30400000u,0xffe00000u,"v0:5,r5:5,so10:11<<1"},
{"vldrepl.b",0x30800000u,0xffc00000u,"v0:5,r5:5,so10:12"},
{"vstelm.d",0x31100000u,0xfff80000u,"v0:5,r5:5,so10:8<<3,u18:1"},
{"vstelm.w",0x31200000u,0xfff00000u,"v0:5,r5:5,so10:8<<2,u18:2"},
{"vstelm.h",0x31400000u,0xffe00000u,"v0:5,r5:5,so10:8<<1,u18:3"},
{"vstelm.b",0x31800000u,0xffc00000u,"v0:5,r5:5,so10:8,u18:4"},
{"xvldrepl.d",0x32100000u,0xfff80000u,"x0:5,r5:5,so10:9<<3"},
{"xvldrepl.w",0x32200000u,0xfff00000u,"x0:5,r5:5,so10:10<<2"},
{"xvldrepl.h",0x32400000u,0xffe00000u,"x0:5,r5:5,so10:11<<1"},
{"xvldrepl.b",0x32800000u,0xffc00000u,"x0:5,r5:5,so10:12"},
{"xvstelm.d",0x33100000u,0xfff00000u,"x0:5,r5:5,so10:8<<3,u18:2"},
{"xvstelm.w",0x33200000u,0xffe00000u,"x0:5,r5:5,so10:8<<2,u18:3"},
{"xvstelm.h",0x33400000u,0xffc00000u,"x0:5,r5:5,so10:8<<1,u18:4"},
{"xvstelm.b",0x33800000u,0xff800000u,"x0:5,r5:5,so10:8,u18:5"},
{"ldx.b",0x38000000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.h",0x38040000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.w",0x38080000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.d",0x380c0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stx.b",0x38100000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stx.h",0x38140000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stx.w",0x38180000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stx.d",0x381c0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.bu",0x38200000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.hu",0x38240000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldx.wu",0x38280000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"preldx",0x382c0000u,0xffff8000u,"u0:5,r5:5,r10:5"},
{"fldx.s",0x38300000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fldx.d",0x38340000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstx.s",0x38380000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstx.d",0x383c0000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"vldx",0x38400000u,0xffff8000u,"v0:5,r5:5,r10:5"},
{"vstx",0x38440000u,0xffff8000u,"v0:5,r5:5,r10:5"},
{"xvldx",0x38480000u,0xffff8000u,"x0:5,r5:5,r10:5"},
{"xvstx",0x384c0000u,0xffff8000u,"x0:5,r5:5,r10:5"},
{"sc.q",0x38570000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"llacq.w",0x38578000u,0xfffffc00u,"r0:5,r5:5"},
{"screl.w",0x38578400u,0xfffffc00u,"r0:5,r5:5"},
{"llacq.d",0x38578800u,0xfffffc00u,"r0:5,r5:5"},
{"screl.d",0x38578c00u,0xfffffc00u,"r0:5,r5:5"},
{"amcas.b",0x38580000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas.h",0x38588000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas.w",0x38590000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas.d",0x38598000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas_db.b",0x385a0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas_db.h",0x385a8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas_db.w",0x385b0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amcas_db.d",0x385b8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap.b",0x385c0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap.h",0x385c8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd.b",0x385d0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd.h",0x385d8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap_db.b",0x385e0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap_db.h",0x385e8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd_db.b",0x385f0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd_db.h",0x385f8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap.w",0x38600000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap.d",0x38608000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd.w",0x38610000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd.d",0x38618000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amand.w",0x38620000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amand.d",0x38628000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amor.w",0x38630000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amor.d",0x38638000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amxor.w",0x38640000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amxor.d",0x38648000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax.w",0x38650000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax.d",0x38658000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin.w",0x38660000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin.d",0x38668000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax.wu",0x38670000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax.du",0x38678000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin.wu",0x38680000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin.du",0x38688000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap_db.w",0x38690000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amswap_db.d",0x38698000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd_db.w",0x386a0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amadd_db.d",0x386a8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amand_db.w",0x386b0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amand_db.d",0x386b8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amor_db.w",0x386c0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amor_db.d",0x386c8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amxor_db.w",0x386d0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"amxor_db.d",0x386d8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax_db.w",0x386e0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax_db.d",0x386e8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin_db.w",0x386f0000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin_db.d",0x386f8000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax_db.wu",0x38700000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammax_db.du",0x38708000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin_db.wu",0x38710000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"ammin_db.du",0x38718000u,0xffff8000u,"r0:5,r10:5,r5:5"},
{"dbar",0x38720000u,0xffff8000u,"u0:15"},
{"ibar",0x38728000u,0xffff8000u,"u0:15"},
{"fldgt.s",0x38740000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fldgt.d",0x38748000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fldle.s",0x38750000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fldle.d",0x38758000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstgt.s",0x38760000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstgt.d",0x38768000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstle.s",0x38770000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"fstle.d",0x38778000u,0xffff8000u,"f0:5,r5:5,r10:5"},
{"ldgt.b",0x38780000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldgt.h",0x38788000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldgt.w",0x38790000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldgt.d",0x38798000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldle.b",0x387a0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldle.h",0x387a8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldle.w",0x387b0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"ldle.d",0x387b8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stgt.b",0x387c0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stgt.h",0x387c8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stgt.w",0x387d0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stgt.d",0x387d8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stle.b",0x387e0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stle.h",0x387e8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stle.w",0x387f0000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"stle.d",0x387f8000u,0xffff8000u,"r0:5,r5:5,r10:5"},
{"beqz",0x40000000u,0xfc000000u,"r5:5,sb0:5|10:16<<2"},
{"bnez",0x44000000u,0xfc000000u,"r5:5,sb0:5|10:16<<2"},
{"bceqz",0x48000000u,0xfc000300u,"c5:3,sb0:5|10:16<<2"},
{"bcnez",0x48000100u,0xfc000300u,"c5:3,sb0:5|10:16<<2"},
{"jiscr0",0x48000200u,0xfc0003e0u,"s0:5|10:16<<2"},
{"jiscr1",0x48000300u,0xfc0003e0u,"s0:5|10:16<<2"},
{"jirl",0x4c000000u,0xfc000000u,"r0:5,r5:5,so10:16<<2"},
{"b",0x50000000u,0xfc000000u,"sb0:10|10:16<<2"},
{"bl",0x54000000u,0xfc000000u,"sb0:10|10:16<<2"},
{"beq",0x58000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"bne",0x5c000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"blt",0x60000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"bge",0x64000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"bltu",0x68000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"bgeu",0x6c000000u,0xfc000000u,"r5:5,r0:5,sb10:16<<2"},
{"vseq.b",0x70000000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vseq.h",0x70008000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vseq.w",0x70010000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vseq.d",0x70018000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.b",0x70020000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.h",0x70028000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.w",0x70030000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.d",0x70038000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.bu",0x70040000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.hu",0x70048000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.wu",0x70050000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsle.du",0x70058000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.b",0x70060000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.h",0x70068000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.w",0x70070000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.d",0x70078000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.bu",0x70080000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.hu",0x70088000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.wu",0x70090000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vslt.du",0x70098000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadd.b",0x700a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadd.h",0x700a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadd.w",0x700b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadd.d",0x700b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsub.b",0x700c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsub.h",0x700c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsub.w",0x700d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsub.d",0x700d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.h.b",0x701e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.w.h",0x701e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.d.w",0x701f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.q.d",0x701f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.h.b",0x70200000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.w.h",0x70208000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.d.w",0x70210000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.q.d",0x70218000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.h.b",0x70220000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.w.h",0x70228000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.d.w",0x70230000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.q.d",0x70238000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.h.b",0x70240000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.w.h",0x70248000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.d.w",0x70250000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.q.d",0x70258000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.h.bu",0x702e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.w.hu",0x702e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.d.wu",0x702f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.q.du",0x702f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.h.bu",0x70300000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.w.hu",0x70308000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.d.wu",0x70310000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwev.q.du",0x70318000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.h.bu",0x70320000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.w.hu",0x70328000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.d.wu",0x70330000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.q.du",0x70338000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.h.bu",0x70340000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.w.hu",0x70348000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.d.wu",0x70350000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsubwod.q.du",0x70358000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.h.bu.b",0x703e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.w.hu.h",0x703e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.d.wu.w",0x703f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwev.q.du.d",0x703f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.h.bu.b",0x70400000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.w.hu.h",0x70408000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.d.wu.w",0x70410000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vaddwod.q.du.d",0x70418000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.b",0x70460000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.h",0x70468000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.w",0x70470000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.d",0x70478000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.b",0x70480000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.h",0x70488000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.w",0x70490000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.d",0x70498000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.bu",0x704a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.hu",0x704a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.wu",0x704b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsadd.du",0x704b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.bu",0x704c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.hu",0x704c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.wu",0x704d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssub.du",0x704d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.h.b",0x70540000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.w.h",0x70548000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.d.w",0x70550000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.q.d",0x70558000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.h.b",0x70560000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.w.h",0x70568000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.d.w",0x70570000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.q.d",0x70578000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.hu.bu",0x70580000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.wu.hu",0x70588000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.du.wu",0x70590000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhaddw.qu.du",0x70598000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.hu.bu",0x705a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.wu.hu",0x705a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.du.wu",0x705b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vhsubw.qu.du",0x705b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadda.b",0x705c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadda.h",0x705c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadda.w",0x705d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadda.d",0x705d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.b",0x70600000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.h",0x70608000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.w",0x70610000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.d",0x70618000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.bu",0x70620000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.hu",0x70628000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.wu",0x70630000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vabsd.du",0x70638000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.b",0x70640000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.h",0x70648000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.w",0x70650000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.d",0x70658000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.bu",0x70660000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.hu",0x70668000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.wu",0x70670000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavg.du",0x70678000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.b",0x70680000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.h",0x70688000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.w",0x70690000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.d",0x70698000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.bu",0x706a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.hu",0x706a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.wu",0x706b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vavgr.du",0x706b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.b",0x70700000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.h",0x70708000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.w",0x70710000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.d",0x70718000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.b",0x70720000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.h",0x70728000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.w",0x70730000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.d",0x70738000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.bu",0x70740000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.hu",0x70748000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.wu",0x70750000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmax.du",0x70758000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.bu",0x70760000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.hu",0x70768000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.wu",0x70770000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmin.du",0x70778000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmul.b",0x70840000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmul.h",0x70848000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmul.w",0x70850000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmul.d",0x70858000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.b",0x70860000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.h",0x70868000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.w",0x70870000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.d",0x70878000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.bu",0x70880000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.hu",0x70888000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.wu",0x70890000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmuh.du",0x70898000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.h.b",0x70900000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.w.h",0x70908000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.d.w",0x70910000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.q.d",0x70918000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.h.b",0x70920000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.w.h",0x70928000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.d.w",0x70930000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.q.d",0x70938000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.h.bu",0x70980000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.w.hu",0x70988000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.d.wu",0x70990000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.q.du",0x70998000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.h.bu",0x709a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.w.hu",0x709a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.d.wu",0x709b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.q.du",0x709b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.h.bu.b",0x70a00000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.w.hu.h",0x70a08000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.d.wu.w",0x70a10000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwev.q.du.d",0x70a18000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.h.bu.b",0x70a20000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.w.hu.h",0x70a28000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.d.wu.w",0x70a30000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmulwod.q.du.d",0x70a38000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmadd.b",0x70a80000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmadd.h",0x70a88000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmadd.w",0x70a90000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmadd.d",0x70a98000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmsub.b",0x70aa0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmsub.h",0x70aa8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmsub.w",0x70ab0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmsub.d",0x70ab8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.h.b",0x70ac0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.w.h",0x70ac8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.d.w",0x70ad0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.q.d",0x70ad8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.h.b",0x70ae0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.w.h",0x70ae8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.d.w",0x70af0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.q.d",0x70af8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.h.bu",0x70b40000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.w.hu",0x70b48000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.d.wu",0x70b50000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.q.du",0x70b58000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.h.bu",0x70b60000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.w.hu",0x70b68000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.d.wu",0x70b70000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.q.du",0x70b78000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.h.bu.b",0x70bc0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.w.hu.h",0x70bc8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.d.wu.w",0x70bd0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwev.q.du.d",0x70bd8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.h.bu.b",0x70be0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.w.hu.h",0x70be8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.d.wu.w",0x70bf0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmaddwod.q.du.d",0x70bf8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.b",0x70e00000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.h",0x70e08000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.w",0x70e10000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.d",0x70e18000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.b",0x70e20000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.h",0x70e28000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.w",0x70e30000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.d",0x70e38000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.bu",0x70e40000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.hu",0x70e48000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.wu",0x70e50000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vdiv.du",0x70e58000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.bu",0x70e60000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.hu",0x70e68000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.wu",0x70e70000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vmod.du",0x70e78000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsll.b",0x70e80000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsll.h",0x70e88000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsll.w",0x70e90000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsll.d",0x70e98000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrl.b",0x70ea0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrl.h",0x70ea8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrl.w",0x70eb0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrl.d",0x70eb8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsra.b",0x70ec0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsra.h",0x70ec8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsra.w",0x70ed0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsra.d",0x70ed8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vrotr.b",0x70ee0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vrotr.h",0x70ee8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vrotr.w",0x70ef0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vrotr.d",0x70ef8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlr.b",0x70f00000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlr.h",0x70f08000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlr.w",0x70f10000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlr.d",0x70f18000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrar.b",0x70f20000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrar.h",0x70f28000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrar.w",0x70f30000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrar.d",0x70f38000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrln.b.h",0x70f48000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrln.h.w",0x70f50000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrln.w.d",0x70f58000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsran.b.h",0x70f68000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsran.h.w",0x70f70000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsran.w.d",0x70f78000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlrn.b.h",0x70f88000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlrn.h.w",0x70f90000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrlrn.w.d",0x70f98000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrarn.b.h",0x70fa8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrarn.h.w",0x70fb0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsrarn.w.d",0x70fb8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.b.h",0x70fc8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.h.w",0x70fd0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.w.d",0x70fd8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.b.h",0x70fe8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.h.w",0x70ff0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.w.d",0x70ff8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.b.h",0x71008000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.h.w",0x71010000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.w.d",0x71018000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.b.h",0x71028000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.h.w",0x71030000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.w.d",0x71038000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.bu.h",0x71048000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.hu.w",0x71050000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrln.wu.d",0x71058000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.bu.h",0x71068000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.hu.w",0x71070000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssran.wu.d",0x71078000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.bu.h",0x71088000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.hu.w",0x71090000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrlrn.wu.d",0x71098000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.bu.h",0x710a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.hu.w",0x710b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vssrarn.wu.d",0x710b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitclr.b",0x710c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitclr.h",0x710c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitclr.w",0x710d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitclr.d",0x710d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitset.b",0x710e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitset.h",0x710e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitset.w",0x710f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitset.d",0x710f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitrev.b",0x71100000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitrev.h",0x71108000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitrev.w",0x71110000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vbitrev.d",0x71118000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackev.b",0x71160000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackev.h",0x71168000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackev.w",0x71170000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackev.d",0x71178000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackod.b",0x71180000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackod.h",0x71188000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackod.w",0x71190000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpackod.d",0x71198000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvl.b",0x711a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvl.h",0x711a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvl.w",0x711b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvl.d",0x711b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvh.b",0x711c0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvh.h",0x711c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvh.w",0x711d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vilvh.d",0x711d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickev.b",0x711e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickev.h",0x711e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickev.w",0x711f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickev.d",0x711f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickod.b",0x71200000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickod.h",0x71208000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickod.w",0x71210000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vpickod.d",0x71218000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vreplve.b",0x71220000u,0xffff8000u,"v0:5,v5:5,r10:5"},
{"vreplve.h",0x71228000u,0xffff8000u,"v0:5,v5:5,r10:5"},
{"vreplve.w",0x71230000u,0xffff8000u,"v0:5,v5:5,r10:5"},
{"vreplve.d",0x71238000u,0xffff8000u,"v0:5,v5:5,r10:5"},
{"vand.v",0x71260000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vor.v",0x71268000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vxor.v",0x71270000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vnor.v",0x71278000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vandn.v",0x71280000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vorn.v",0x71288000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfrstp.b",0x712b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfrstp.h",0x712b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vadd.q",0x712d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsub.q",0x712d8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsigncov.b",0x712e0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsigncov.h",0x712e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsigncov.w",0x712f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vsigncov.d",0x712f8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfadd.s",0x71308000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfadd.d",0x71310000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfsub.s",0x71328000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfsub.d",0x71330000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmul.s",0x71388000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmul.d",0x71390000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfdiv.s",0x713a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfdiv.d",0x713b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmax.s",0x713c8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmax.d",0x713d0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmin.s",0x713e8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmin.d",0x713f0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmaxa.s",0x71408000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmaxa.d",0x71410000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmina.s",0x71428000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfmina.d",0x71430000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcvt.h.s",0x71460000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vfcvt.s.d",0x71468000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vffint.s.l",0x71480000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vftint.w.d",0x71498000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vftintrm.w.d",0x714a0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vftintrp.w.d",0x714a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vftintrz.w.d",0x714b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vftintrne.w.d",0x714b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vshuf.h",0x717a8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vshuf.w",0x717b0000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vshuf.d",0x717b8000u,0xffff8000u,"v0:5,v5:5,v10:5"},
{"vseqi.b",0x72800000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vseqi.h",0x72808000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vseqi.w",0x72810000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vseqi.d",0x72818000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslei.b",0x72820000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslei.h",0x72828000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslei.w",0x72830000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslei.d",0x72838000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslei.bu",0x72840000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslei.hu",0x72848000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslei.wu",0x72850000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslei.du",0x72858000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslti.b",0x72860000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslti.h",0x72868000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslti.w",0x72870000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslti.d",0x72878000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vslti.bu",0x72880000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslti.hu",0x72888000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslti.wu",0x72890000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslti.du",0x72898000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vaddi.bu",0x728a0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vaddi.hu",0x728a8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vaddi.wu",0x728b0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vaddi.du",0x728b8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsubi.bu",0x728c0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsubi.hu",0x728c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsubi.wu",0x728d0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsubi.du",0x728d8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vbsll.v",0x728e0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vbsrl.v",0x728e8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmaxi.b",0x72900000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmaxi.h",0x72908000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmaxi.w",0x72910000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmaxi.d",0x72918000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmini.b",0x72920000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmini.h",0x72928000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmini.w",0x72930000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmini.d",0x72938000u,0xffff8000u,"v0:5,v5:5,s10:5"},
{"vmaxi.bu",0x72940000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmaxi.hu",0x72948000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmaxi.wu",0x72950000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmaxi.du",0x72958000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmini.bu",0x72960000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmini.hu",0x72968000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmini.wu",0x72970000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vmini.du",0x72978000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vfrstpi.b",0x729a0000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vfrstpi.h",0x729a8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vclo.b",0x729c0000u,0xfffffc00u,"v0:5,v5:5"},
{"vclo.h",0x729c0400u,0xfffffc00u,"v0:5,v5:5"},
{"vclo.w",0x729c0800u,0xfffffc00u,"v0:5,v5:5"},
{"vclo.d",0x729c0c00u,0xfffffc00u,"v0:5,v5:5"},
{"vclz.b",0x729c1000u,0xfffffc00u,"v0:5,v5:5"},
{"vclz.h",0x729c1400u,0xfffffc00u,"v0:5,v5:5"},
{"vclz.w",0x729c1800u,0xfffffc00u,"v0:5,v5:5"},
{"vclz.d",0x729c1c00u,0xfffffc00u,"v0:5,v5:5"},
{"vpcnt.b",0x729c2000u,0xfffffc00u,"v0:5,v5:5"},
{"vpcnt.h",0x729c2400u,0xfffffc00u,"v0:5,v5:5"},
{"vpcnt.w",0x729c2800u,0xfffffc00u,"v0:5,v5:5"},
{"vpcnt.d",0x729c2c00u,0xfffffc00u,"v0:5,v5:5"},
{"vneg.b",0x729c3000u,0xfffffc00u,"v0:5,v5:5"},
{"vneg.h",0x729c3400u,0xfffffc00u,"v0:5,v5:5"},
{"vneg.w",0x729c3800u,0xfffffc00u,"v0:5,v5:5"},
{"vneg.d",0x729c3c00u,0xfffffc00u,"v0:5,v5:5"},
{"vmskltz.b",0x729c4000u,0xfffffc00u,"v0:5,v5:5"},
{"vmskltz.h",0x729c4400u,0xfffffc00u,"v0:5,v5:5"},
{"vmskltz.w",0x729c4800u,0xfffffc00u,"v0:5,v5:5"},
{"vmskltz.d",0x729c4c00u,0xfffffc00u,"v0:5,v5:5"},
{"vmskgez.b",0x729c5000u,0xfffffc00u,"v0:5,v5:5"},
{"vmsknz.b",0x729c6000u,0xfffffc00u,"v0:5,v5:5"},
{"vseteqz.v",0x729c9800u,0xfffffc18u,"c0:3,v5:5"},
{"vsetnez.v",0x729c9c00u,0xfffffc18u,"c0:3,v5:5"},
{"vsetanyeqz.b",0x729ca000u,0xfffffc18u,"c0:3,v5:5"},
{"vsetanyeqz.h",0x729ca400u,0xfffffc18u,"c0:3,v5:5"},
{"vsetanyeqz.w",0x729ca800u,0xfffffc18u,"c0:3,v5:5"},
{"vsetanyeqz.d",0x729cac00u,0xfffffc18u,"c0:3,v5:5"},
{"vsetallnez.b",0x729cb000u,0xfffffc18u,"c0:3,v5:5"},
{"vsetallnez.h",0x729cb400u,0xfffffc18u,"c0:3,v5:5"},
{"vsetallnez.w",0x729cb800u,0xfffffc18u,"c0:3,v5:5"},
{"vsetallnez.d",0x729cbc00u,0xfffffc18u,"c0:3,v5:5"},
{"vflogb.s",0x729cc400u,0xfffffc00u,"v0:5,v5:5"},
{"vflogb.d",0x729cc800u,0xfffffc00u,"v0:5,v5:5"},
{"vfclass.s",0x729cd400u,0xfffffc00u,"v0:5,v5:5"},
{"vfclass.d",0x729cd800u,0xfffffc00u,"v0:5,v5:5"},
{"vfsqrt.s",0x729ce400u,0xfffffc00u,"v0:5,v5:5"},
{"vfsqrt.d",0x729ce800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrecip.s",0x729cf400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrecip.d",0x729cf800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrsqrt.s",0x729d0400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrsqrt.d",0x729d0800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrecipe.s",0x729d1400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrecipe.d",0x729d1800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrsqrte.s",0x729d2400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrsqrte.d",0x729d2800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrint.s",0x729d3400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrint.d",0x729d3800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrm.s",0x729d4400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrm.d",0x729d4800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrp.s",0x729d5400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrp.d",0x729d5800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrz.s",0x729d6400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrz.d",0x729d6800u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrne.s",0x729d7400u,0xfffffc00u,"v0:5,v5:5"},
{"vfrintrne.d",0x729d7800u,0xfffffc00u,"v0:5,v5:5"},
{"vfcvtl.s.h",0x729de800u,0xfffffc00u,"v0:5,v5:5"},
{"vfcvth.s.h",0x729dec00u,0xfffffc00u,"v0:5,v5:5"},
{"vfcvtl.d.s",0x729df000u,0xfffffc00u,"v0:5,v5:5"},
{"vfcvth.d.s",0x729df400u,0xfffffc00u,"v0:5,v5:5"},
{"vffint.s.w",0x729e0000u,0xfffffc00u,"v0:5,v5:5"},
{"vffint.s.wu",0x729e0400u,0xfffffc00u,"v0:5,v5:5"},
{"vffint.d.l",0x729e0800u,0xfffffc00u,"v0:5,v5:5"},
{"vffint.d.lu",0x729e0c00u,0xfffffc00u,"v0:5,v5:5"},
{"vffintl.d.w",0x729e1000u,0xfffffc00u,"v0:5,v5:5"},
{"vffinth.d.w",0x729e1400u,0xfffffc00u,"v0:5,v5:5"},
{"vftint.w.s",0x729e3000u,0xfffffc00u,"v0:5,v5:5"},
{"vftint.l.d",0x729e3400u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrm.w.s",0x729e3800u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrm.l.d",0x729e3c00u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrp.w.s",0x729e4000u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrp.l.d",0x729e4400u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrz.w.s",0x729e4800u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrz.l.d",0x729e4c00u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrne.w.s",0x729e5000u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrne.l.d",0x729e5400u,0xfffffc00u,"v0:5,v5:5"},
{"vftint.wu.s",0x729e5800u,0xfffffc00u,"v0:5,v5:5"},
{"vftint.lu.d",0x729e5c00u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrz.wu.s",0x729e7000u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrz.lu.d",0x729e7400u,0xfffffc00u,"v0:5,v5:5"},
{"vftintl.l.s",0x729e8000u,0xfffffc00u,"v0:5,v5:5"},
{"vftinth.l.s",0x729e8400u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrml.l.s",0x729e8800u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrmh.l.s",0x729e8c00u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrpl.l.s",0x729e9000u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrph.l.s",0x729e9400u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrzl.l.s",0x729e9800u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrzh.l.s",0x729e9c00u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrnel.l.s",0x729ea000u,0xfffffc00u,"v0:5,v5:5"},
{"vftintrneh.l.s",0x729ea400u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.h.b",0x729ee000u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.w.h",0x729ee400u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.d.w",0x729ee800u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.q.d",0x729eec00u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.hu.bu",0x729ef000u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.wu.hu",0x729ef400u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.du.wu",0x729ef800u,0xfffffc00u,"v0:5,v5:5"},
{"vexth.qu.du",0x729efc00u,0xfffffc00u,"v0:5,v5:5"},
{"vreplgr2vr.b",0x729f0000u,0xfffffc00u,"v0:5,r5:5"},
{"vreplgr2vr.h",0x729f0400u,0xfffffc00u,"v0:5,r5:5"},
{"vreplgr2vr.w",0x729f0800u,0xfffffc00u,"v0:5,r5:5"},
{"vreplgr2vr.d",0x729f0c00u,0xfffffc00u,"v0:5,r5:5"},
{"vrotri.b",0x72a02000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vrotri.h",0x72a04000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vrotri.w",0x72a08000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vrotri.d",0x72a10000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrlri.b",0x72a42000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsrlri.h",0x72a44000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrlri.w",0x72a48000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrlri.d",0x72a50000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrari.b",0x72a82000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsrari.h",0x72a84000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrari.w",0x72a88000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrari.d",0x72a90000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vinsgr2vr.b",0x72eb8000u,0xffffc000u,"v0:5,r5:5,u10:4"},
{"vinsgr2vr.h",0x72ebc000u,0xffffe000u,"v0:5,r5:5,u10:3"},
{"vinsgr2vr.w",0x72ebe000u,0xfffff000u,"v0:5,r5:5,u10:2"},
{"vinsgr2vr.d",0x72ebf000u,0xfffff800u,"v0:5,r5:5,u10:1"},
{"vpickve2gr.b",0x72ef8000u,0xffffc000u,"r0:5,v5:5,u10:4"},
{"vpickve2gr.h",0x72efc000u,0xffffe000u,"r0:5,v5:5,u10:3"},
{"vpickve2gr.w",0x72efe000u,0xfffff000u,"r0:5,v5:5,u10:2"},
{"vpickve2gr.d",0x72eff000u,0xfffff800u,"r0:5,v5:5,u10:1"},
{"vpickve2gr.bu",0x72f38000u,0xffffc000u,"r0:5,v5:5,u10:4"},
{"vpickve2gr.hu",0x72f3c000u,0xffffe000u,"r0:5,v5:5,u10:3"},
{"vpickve2gr.wu",0x72f3e000u,0xfffff000u,"r0:5,v5:5,u10:2"},
{"vpickve2gr.du",0x72f3f000u,0xfffff800u,"r0:5,v5:5,u10:1"},
{"vreplvei.b",0x72f78000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vreplvei.h",0x72f7c000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vreplvei.w",0x72f7e000u,0xfffff000u,"v0:5,v5:5,u10:2"},
{"vreplvei.d",0x72f7f000u,0xfffff800u,"v0:5,v5:5,u10:1"},
{"vsllwil.h.b",0x73082000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsllwil.w.h",0x73084000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsllwil.d.w",0x73088000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vextl.q.d",0x73090000u,0xfffffc00u,"v0:5,v5:5"},
{"vsllwil.hu.bu",0x730c2000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsllwil.wu.hu",0x730c4000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsllwil.du.wu",0x730c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vextl.qu.du",0x730d0000u,0xfffffc00u,"v0:5,v5:5"},
{"vbitclri.b",0x73102000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vbitclri.h",0x73104000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vbitclri.w",0x73108000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vbitclri.d",0x73110000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vbitseti.b",0x73142000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vbitseti.h",0x73144000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vbitseti.w",0x73148000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vbitseti.d",0x73150000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vbitrevi.b",0x73182000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vbitrevi.h",0x73184000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vbitrevi.w",0x73188000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vbitrevi.d",0x73190000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsat.b",0x73242000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsat.h",0x73244000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsat.w",0x73248000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsat.d",0x73250000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsat.bu",0x73282000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsat.hu",0x73284000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsat.wu",0x73288000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsat.du",0x73290000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vslli.b",0x732c2000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vslli.h",0x732c4000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vslli.w",0x732c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vslli.d",0x732d0000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrli.b",0x73302000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsrli.h",0x73304000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrli.w",0x73308000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrli.d",0x73310000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrai.b",0x73342000u,0xffffe000u,"v0:5,v5:5,u10:3"},
{"vsrai.h",0x73344000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrai.w",0x73348000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrai.d",0x73350000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrlni.b.h",0x73404000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrlni.h.w",0x73408000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrlni.w.d",0x73410000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrlni.d.q",0x73420000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vsrlrni.b.h",0x73444000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrlrni.h.w",0x73448000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrlrni.w.d",0x73450000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrlrni.d.q",0x73460000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrlni.b.h",0x73484000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrlni.h.w",0x73488000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrlni.w.d",0x73490000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrlni.d.q",0x734a0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrlni.bu.h",0x734c4000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrlni.hu.w",0x734c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrlni.wu.d",0x734d0000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrlni.du.q",0x734e0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrlrni.b.h",0x73504000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrlrni.h.w",0x73508000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrlrni.w.d",0x73510000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrlrni.d.q",0x73520000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrlrni.bu.h",0x73544000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrlrni.hu.w",0x73548000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrlrni.wu.d",0x73550000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrlrni.du.q",0x73560000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vsrani.b.h",0x73584000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrani.h.w",0x73588000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrani.w.d",0x73590000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrani.d.q",0x735a0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vsrarni.b.h",0x735c4000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vsrarni.h.w",0x735c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vsrarni.w.d",0x735d0000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vsrarni.d.q",0x735e0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrani.b.h",0x73604000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrani.h.w",0x73608000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrani.w.d",0x73610000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrani.d.q",0x73620000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrani.bu.h",0x73644000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrani.hu.w",0x73648000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrani.wu.d",0x73650000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrani.du.q",0x73660000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrarni.b.h",0x73684000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrarni.h.w",0x73688000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrarni.w.d",0x73690000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrarni.d.q",0x736a0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vssrarni.bu.h",0x736c4000u,0xffffc000u,"v0:5,v5:5,u10:4"},
{"vssrarni.hu.w",0x736c8000u,0xffff8000u,"v0:5,v5:5,u10:5"},
{"vssrarni.wu.d",0x736d0000u,0xffff0000u,"v0:5,v5:5,u10:6"},
{"vssrarni.du.q",0x736e0000u,0xfffe0000u,"v0:5,v5:5,u10:7"},
{"vextrins.d",0x73800000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vextrins.w",0x73840000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vextrins.h",0x73880000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vextrins.b",0x738c0000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vshuf4i.b",0x73900000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vshuf4i.h",0x73940000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vshuf4i.w",0x73980000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vshuf4i.d",0x739c0000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vbitseli.b",0x73c40000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vandi.b",0x73d00000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vori.b",0x73d40000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vxori.b",0x73d80000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vnori.b",0x73dc0000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"vldi",0x73e00000u,0xfffc0000u,"v0:5,s5:13"},
{"vpermi.w",0x73e40000u,0xfffc0000u,"v0:5,v5:5,u10:8"},
{"xvseq.b",0x74000000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvseq.h",0x74008000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvseq.w",0x74010000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvseq.d",0x74018000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.b",0x74020000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.h",0x74028000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.w",0x74030000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.d",0x74038000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.bu",0x74040000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.hu",0x74048000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.wu",0x74050000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsle.du",0x74058000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.b",0x74060000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.h",0x74068000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.w",0x74070000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.d",0x74078000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.bu",0x74080000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.hu",0x74088000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.wu",0x74090000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvslt.du",0x74098000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadd.b",0x740a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadd.h",0x740a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadd.w",0x740b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadd.d",0x740b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsub.b",0x740c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsub.h",0x740c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsub.w",0x740d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsub.d",0x740d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.h.b",0x741e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.w.h",0x741e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.d.w",0x741f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.q.d",0x741f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.h.b",0x74200000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.w.h",0x74208000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.d.w",0x74210000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.q.d",0x74218000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.h.b",0x74220000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.w.h",0x74228000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.d.w",0x74230000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.q.d",0x74238000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.h.b",0x74240000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.w.h",0x74248000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.d.w",0x74250000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.q.d",0x74258000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.h.bu",0x742e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.w.hu",0x742e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.d.wu",0x742f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.q.du",0x742f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.h.bu",0x74300000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.w.hu",0x74308000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.d.wu",0x74310000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwev.q.du",0x74318000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.h.bu",0x74320000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.w.hu",0x74328000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.d.wu",0x74330000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.q.du",0x74338000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.h.bu",0x74340000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.w.hu",0x74348000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.d.wu",0x74350000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsubwod.q.du",0x74358000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.h.bu.b",0x743e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.w.hu.h",0x743e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.d.wu.w",0x743f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwev.q.du.d",0x743f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.h.bu.b",0x74400000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.w.hu.h",0x74408000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.d.wu.w",0x74410000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvaddwod.q.du.d",0x74418000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.b",0x74460000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.h",0x74468000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.w",0x74470000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.d",0x74478000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.b",0x74480000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.h",0x74488000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.w",0x74490000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.d",0x74498000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.bu",0x744a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.hu",0x744a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.wu",0x744b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsadd.du",0x744b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.bu",0x744c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.hu",0x744c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.wu",0x744d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssub.du",0x744d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.h.b",0x74540000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.w.h",0x74548000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.d.w",0x74550000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.q.d",0x74558000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.h.b",0x74560000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.w.h",0x74568000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.d.w",0x74570000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.q.d",0x74578000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.hu.bu",0x74580000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.wu.hu",0x74588000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.du.wu",0x74590000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhaddw.qu.du",0x74598000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.hu.bu",0x745a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.wu.hu",0x745a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.du.wu",0x745b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvhsubw.qu.du",0x745b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadda.b",0x745c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadda.h",0x745c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadda.w",0x745d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadda.d",0x745d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.b",0x74600000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.h",0x74608000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.w",0x74610000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.d",0x74618000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.bu",0x74620000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.hu",0x74628000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.wu",0x74630000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvabsd.du",0x74638000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.b",0x74640000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.h",0x74648000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.w",0x74650000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.d",0x74658000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.bu",0x74660000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.hu",0x74668000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.wu",0x74670000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavg.du",0x74678000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.b",0x74680000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.h",0x74688000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.w",0x74690000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.d",0x74698000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.bu",0x746a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.hu",0x746a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.wu",0x746b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvavgr.du",0x746b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.b",0x74700000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.h",0x74708000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.w",0x74710000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.d",0x74718000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.b",0x74720000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.h",0x74728000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.w",0x74730000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.d",0x74738000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.bu",0x74740000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.hu",0x74748000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.wu",0x74750000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmax.du",0x74758000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.bu",0x74760000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.hu",0x74768000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.wu",0x74770000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmin.du",0x74778000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmul.b",0x74840000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmul.h",0x74848000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmul.w",0x74850000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmul.d",0x74858000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.b",0x74860000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.h",0x74868000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.w",0x74870000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.d",0x74878000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.bu",0x74880000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.hu",0x74888000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.wu",0x74890000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmuh.du",0x74898000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.h.b",0x74900000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.w.h",0x74908000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.d.w",0x74910000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.q.d",0x74918000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.h.b",0x74920000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.w.h",0x74928000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.d.w",0x74930000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.q.d",0x74938000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.h.bu",0x74980000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.w.hu",0x74988000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.d.wu",0x74990000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.q.du",0x74998000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.h.bu",0x749a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.w.hu",0x749a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.d.wu",0x749b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.q.du",0x749b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.h.bu.b",0x74a00000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.w.hu.h",0x74a08000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.d.wu.w",0x74a10000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwev.q.du.d",0x74a18000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.h.bu.b",0x74a20000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.w.hu.h",0x74a28000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.d.wu.w",0x74a30000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmulwod.q.du.d",0x74a38000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmadd.b",0x74a80000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmadd.h",0x74a88000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmadd.w",0x74a90000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmadd.d",0x74a98000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmsub.b",0x74aa0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmsub.h",0x74aa8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmsub.w",0x74ab0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmsub.d",0x74ab8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.h.b",0x74ac0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.w.h",0x74ac8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.d.w",0x74ad0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.q.d",0x74ad8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.h.b",0x74ae0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.w.h",0x74ae8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.d.w",0x74af0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.q.d",0x74af8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.h.bu",0x74b40000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.w.hu",0x74b48000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.d.wu",0x74b50000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.q.du",0x74b58000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.h.bu",0x74b60000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.w.hu",0x74b68000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.d.wu",0x74b70000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.q.du",0x74b78000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.h.bu.b",0x74bc0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.w.hu.h",0x74bc8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.d.wu.w",0x74bd0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwev.q.du.d",0x74bd8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.h.bu.b",0x74be0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.w.hu.h",0x74be8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.d.wu.w",0x74bf0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmaddwod.q.du.d",0x74bf8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.b",0x74e00000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.h",0x74e08000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.w",0x74e10000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.d",0x74e18000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.b",0x74e20000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.h",0x74e28000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.w",0x74e30000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.d",0x74e38000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.bu",0x74e40000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.hu",0x74e48000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.wu",0x74e50000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvdiv.du",0x74e58000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.bu",0x74e60000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.hu",0x74e68000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.wu",0x74e70000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvmod.du",0x74e78000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsll.b",0x74e80000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsll.h",0x74e88000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsll.w",0x74e90000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsll.d",0x74e98000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrl.b",0x74ea0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrl.h",0x74ea8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrl.w",0x74eb0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrl.d",0x74eb8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsra.b",0x74ec0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsra.h",0x74ec8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsra.w",0x74ed0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsra.d",0x74ed8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvrotr.b",0x74ee0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvrotr.h",0x74ee8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvrotr.w",0x74ef0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvrotr.d",0x74ef8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlr.b",0x74f00000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlr.h",0x74f08000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlr.w",0x74f10000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlr.d",0x74f18000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrar.b",0x74f20000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrar.h",0x74f28000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrar.w",0x74f30000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrar.d",0x74f38000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrln.b.h",0x74f48000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrln.h.w",0x74f50000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrln.w.d",0x74f58000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsran.b.h",0x74f68000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsran.h.w",0x74f70000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsran.w.d",0x74f78000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlrn.b.h",0x74f88000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlrn.h.w",0x74f90000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrlrn.w.d",0x74f98000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrarn.b.h",0x74fa8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrarn.h.w",0x74fb0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsrarn.w.d",0x74fb8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.b.h",0x74fc8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.h.w",0x74fd0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.w.d",0x74fd8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.b.h",0x74fe8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.h.w",0x74ff0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.w.d",0x74ff8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.b.h",0x75008000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.h.w",0x75010000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.w.d",0x75018000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.b.h",0x75028000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.h.w",0x75030000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.w.d",0x75038000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.bu.h",0x75048000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.hu.w",0x75050000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrln.wu.d",0x75058000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.bu.h",0x75068000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.hu.w",0x75070000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssran.wu.d",0x75078000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.bu.h",0x75088000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.hu.w",0x75090000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrlrn.wu.d",0x75098000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.bu.h",0x750a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.hu.w",0x750b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvssrarn.wu.d",0x750b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitclr.b",0x750c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitclr.h",0x750c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitclr.w",0x750d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitclr.d",0x750d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitset.b",0x750e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitset.h",0x750e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitset.w",0x750f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitset.d",0x750f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitrev.b",0x75100000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitrev.h",0x75108000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitrev.w",0x75110000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvbitrev.d",0x75118000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackev.b",0x75160000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackev.h",0x75168000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackev.w",0x75170000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackev.d",0x75178000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackod.b",0x75180000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackod.h",0x75188000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackod.w",0x75190000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpackod.d",0x75198000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvl.b",0x751a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvl.h",0x751a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvl.w",0x751b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvl.d",0x751b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvh.b",0x751c0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvh.h",0x751c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvh.w",0x751d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvilvh.d",0x751d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickev.b",0x751e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickev.h",0x751e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickev.w",0x751f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickev.d",0x751f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickod.b",0x75200000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickod.h",0x75208000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickod.w",0x75210000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvpickod.d",0x75218000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvreplve.b",0x75220000u,0xffff8000u,"x0:5,x5:5,r10:5"},
{"xvreplve.h",0x75228000u,0xffff8000u,"x0:5,x5:5,r10:5"},
{"xvreplve.w",0x75230000u,0xffff8000u,"x0:5,x5:5,r10:5"},
{"xvreplve.d",0x75238000u,0xffff8000u,"x0:5,x5:5,r10:5"},
{"xvand.v",0x75260000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvor.v",0x75268000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvxor.v",0x75270000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvnor.v",0x75278000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvandn.v",0x75280000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvorn.v",0x75288000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfrstp.b",0x752b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfrstp.h",0x752b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvadd.q",0x752d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsub.q",0x752d8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsigncov.b",0x752e0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsigncov.h",0x752e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsigncov.w",0x752f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvsigncov.d",0x752f8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfadd.s",0x75308000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfadd.d",0x75310000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfsub.s",0x75328000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfsub.d",0x75330000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmul.s",0x75388000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmul.d",0x75390000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfdiv.s",0x753a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfdiv.d",0x753b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmax.s",0x753c8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmax.d",0x753d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmin.s",0x753e8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmin.d",0x753f0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmaxa.s",0x75408000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmaxa.d",0x75410000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmina.s",0x75428000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfmina.d",0x75430000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcvt.h.s",0x75460000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvfcvt.s.d",0x75468000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvffint.s.l",0x75480000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvftint.w.d",0x75498000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvftintrm.w.d",0x754a0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvftintrp.w.d",0x754a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvftintrz.w.d",0x754b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvftintrne.w.d",0x754b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvshuf.h",0x757a8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvshuf.w",0x757b0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvshuf.d",0x757b8000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvperm.w",0x757d0000u,0xffff8000u,"x0:5,x5:5,x10:5"},
{"xvseqi.b",0x76800000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvseqi.h",0x76808000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvseqi.w",0x76810000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvseqi.d",0x76818000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslei.b",0x76820000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslei.h",0x76828000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslei.w",0x76830000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslei.d",0x76838000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslei.bu",0x76840000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslei.hu",0x76848000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslei.wu",0x76850000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslei.du",0x76858000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslti.b",0x76860000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslti.h",0x76868000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslti.w",0x76870000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslti.d",0x76878000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvslti.bu",0x76880000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslti.hu",0x76888000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslti.wu",0x76890000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslti.du",0x76898000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvaddi.bu",0x768a0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvaddi.hu",0x768a8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvaddi.wu",0x768b0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvaddi.du",0x768b8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsubi.bu",0x768c0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsubi.hu",0x768c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsubi.wu",0x768d0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsubi.du",0x768d8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvbsll.v",0x768e0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvbsrl.v",0x768e8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmaxi.b",0x76900000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmaxi.h",0x76908000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmaxi.w",0x76910000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmaxi.d",0x76918000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmini.b",0x76920000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmini.h",0x76928000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmini.w",0x76930000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmini.d",0x76938000u,0xffff8000u,"x0:5,x5:5,s10:5"},
{"xvmaxi.bu",0x76940000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmaxi.hu",0x76948000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmaxi.wu",0x76950000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmaxi.du",0x76958000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmini.bu",0x76960000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmini.hu",0x76968000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmini.wu",0x76970000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvmini.du",0x76978000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvfrstpi.b",0x769a0000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvfrstpi.h",0x769a8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvclo.b",0x769c0000u,0xfffffc00u,"x0:5,x5:5"},
{"xvclo.h",0x769c0400u,0xfffffc00u,"x0:5,x5:5"},
{"xvclo.w",0x769c0800u,0xfffffc00u,"x0:5,x5:5"},
{"xvclo.d",0x769c0c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvclz.b",0x769c1000u,0xfffffc00u,"x0:5,x5:5"},
{"xvclz.h",0x769c1400u,0xfffffc00u,"x0:5,x5:5"},
{"xvclz.w",0x769c1800u,0xfffffc00u,"x0:5,x5:5"},
{"xvclz.d",0x769c1c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvpcnt.b",0x769c2000u,0xfffffc00u,"x0:5,x5:5"},
{"xvpcnt.h",0x769c2400u,0xfffffc00u,"x0:5,x5:5"},
{"xvpcnt.w",0x769c2800u,0xfffffc00u,"x0:5,x5:5"},
{"xvpcnt.d",0x769c2c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvneg.b",0x769c3000u,0xfffffc00u,"x0:5,x5:5"},
{"xvneg.h",0x769c3400u,0xfffffc00u,"x0:5,x5:5"},
{"xvneg.w",0x769c3800u,0xfffffc00u,"x0:5,x5:5"},
{"xvneg.d",0x769c3c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvmskltz.b",0x769c4000u,0xfffffc00u,"x0:5,x5:5"},
{"xvmskltz.h",0x769c4400u,0xfffffc00u,"x0:5,x5:5"},
{"xvmskltz.w",0x769c4800u,0xfffffc00u,"x0:5,x5:5"},
{"xvmskltz.d",0x769c4c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvmskgez.b",0x769c5000u,0xfffffc00u,"x0:5,x5:5"},
{"xvmsknz.b",0x769c6000u,0xfffffc00u,"x0:5,x5:5"},
{"xvseteqz.v",0x769c9800u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetnez.v",0x769c9c00u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetanyeqz.b",0x769ca000u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetanyeqz.h",0x769ca400u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetanyeqz.w",0x769ca800u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetanyeqz.d",0x769cac00u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetallnez.b",0x769cb000u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetallnez.h",0x769cb400u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetallnez.w",0x769cb800u,0xfffffc18u,"c0:3,x5:5"},
{"xvsetallnez.d",0x769cbc00u,0xfffffc18u,"c0:3,x5:5"},
{"xvflogb.s",0x769cc400u,0xfffffc00u,"x0:5,x5:5"},
{"xvflogb.d",0x769cc800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfclass.s",0x769cd400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfclass.d",0x769cd800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfsqrt.s",0x769ce400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfsqrt.d",0x769ce800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrecip.s",0x769cf400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrecip.d",0x769cf800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrsqrt.s",0x769d0400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrsqrt.d",0x769d0800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrecipe.s",0x769d1400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrecipe.d",0x769d1800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrsqrte.s",0x769d2400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrsqrte.d",0x769d2800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrint.s",0x769d3400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrint.d",0x769d3800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrm.s",0x769d4400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrm.d",0x769d4800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrp.s",0x769d5400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrp.d",0x769d5800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrz.s",0x769d6400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrz.d",0x769d6800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrne.s",0x769d7400u,0xfffffc00u,"x0:5,x5:5"},
{"xvfrintrne.d",0x769d7800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfcvtl.s.h",0x769de800u,0xfffffc00u,"x0:5,x5:5"},
{"xvfcvth.s.h",0x769dec00u,0xfffffc00u,"x0:5,x5:5"},
{"xvfcvtl.d.s",0x769df000u,0xfffffc00u,"x0:5,x5:5"},
{"xvfcvth.d.s",0x769df400u,0xfffffc00u,"x0:5,x5:5"},
{"xvffint.s.w",0x769e0000u,0xfffffc00u,"x0:5,x5:5"},
{"xvffint.s.wu",0x769e0400u,0xfffffc00u,"x0:5,x5:5"},
{"xvffint.d.l",0x769e0800u,0xfffffc00u,"x0:5,x5:5"},
{"xvffint.d.lu",0x769e0c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvffintl.d.w",0x769e1000u,0xfffffc00u,"x0:5,x5:5"},
{"xvffinth.d.w",0x769e1400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftint.w.s",0x769e3000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftint.l.d",0x769e3400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrm.w.s",0x769e3800u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrm.l.d",0x769e3c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrp.w.s",0x769e4000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrp.l.d",0x769e4400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrz.w.s",0x769e4800u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrz.l.d",0x769e4c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrne.w.s",0x769e5000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrne.l.d",0x769e5400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftint.wu.s",0x769e5800u,0xfffffc00u,"x0:5,x5:5"},
{"xvftint.lu.d",0x769e5c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrz.wu.s",0x769e7000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrz.lu.d",0x769e7400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintl.l.s",0x769e8000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftinth.l.s",0x769e8400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrml.l.s",0x769e8800u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrmh.l.s",0x769e8c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrpl.l.s",0x769e9000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrph.l.s",0x769e9400u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrzl.l.s",0x769e9800u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrzh.l.s",0x769e9c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrnel.l.s",0x769ea000u,0xfffffc00u,"x0:5,x5:5"},
{"xvftintrneh.l.s",0x769ea400u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.h.b",0x769ee000u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.w.h",0x769ee400u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.d.w",0x769ee800u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.q.d",0x769eec00u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.hu.bu",0x769ef000u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.wu.hu",0x769ef400u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.du.wu",0x769ef800u,0xfffffc00u,"x0:5,x5:5"},
{"xvexth.qu.du",0x769efc00u,0xfffffc00u,"x0:5,x5:5"},
{"xvreplgr2vr.b",0x769f0000u,0xfffffc00u,"x0:5,r5:5"},
{"xvreplgr2vr.h",0x769f0400u,0xfffffc00u,"x0:5,r5:5"},
{"xvreplgr2vr.w",0x769f0800u,0xfffffc00u,"x0:5,r5:5"},
{"xvreplgr2vr.d",0x769f0c00u,0xfffffc00u,"x0:5,r5:5"},
{"vext2xv.h.b",0x769f1000u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.w.b",0x769f1400u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.d.b",0x769f1800u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.w.h",0x769f1c00u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.d.h",0x769f2000u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.d.w",0x769f2400u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.hu.bu",0x769f2800u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.wu.bu",0x769f2c00u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.du.bu",0x769f3000u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.wu.hu",0x769f3400u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.du.hu",0x769f3800u,0xfffffc00u,"x0:5,x5:5"},
{"vext2xv.du.wu",0x769f3c00u,0xfffffc00u,"x0:5,x5:5"},
{"xvhseli.d",0x769f8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvrotri.b",0x76a02000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvrotri.h",0x76a04000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvrotri.w",0x76a08000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvrotri.d",0x76a10000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrlri.b",0x76a42000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsrlri.h",0x76a44000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrlri.w",0x76a48000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrlri.d",0x76a50000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrari.b",0x76a82000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsrari.h",0x76a84000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrari.w",0x76a88000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrari.d",0x76a90000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvinsgr2vr.w",0x76ebc000u,0xffffe000u,"x0:5,r5:5,u10:3"},
{"xvinsgr2vr.d",0x76ebe000u,0xfffff000u,"x0:5,r5:5,u10:2"},
{"xvpickve2gr.w",0x76efc000u,0xffffe000u,"r0:5,x5:5,u10:3"},
{"xvpickve2gr.d",0x76efe000u,0xfffff000u,"r0:5,x5:5,u10:2"},
{"xvpickve2gr.wu",0x76f3c000u,0xffffe000u,"r0:5,x5:5,u10:3"},
{"xvpickve2gr.du",0x76f3e000u,0xfffff000u,"r0:5,x5:5,u10:2"},
{"xvrepl128vei.b",0x76f78000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvrepl128vei.h",0x76f7c000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvrepl128vei.w",0x76f7e000u,0xfffff000u,"x0:5,x5:5,u10:2"},
{"xvrepl128vei.d",0x76f7f000u,0xfffff800u,"x0:5,x5:5,u10:1"},
{"xvinsve0.w",0x76ffc000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvinsve0.d",0x76ffe000u,0xfffff000u,"x0:5,x5:5,u10:2"},
{"xvpickve.w",0x7703c000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvpickve.d",0x7703e000u,0xfffff000u,"x0:5,x5:5,u10:2"},
{"xvreplve0.b",0x77070000u,0xfffffc00u,"x0:5,x5:5"},
{"xvreplve0.h",0x77078000u,0xfffffc00u,"x0:5,x5:5"},
{"xvreplve0.w",0x7707c000u,0xfffffc00u,"x0:5,x5:5"},
{"xvreplve0.d",0x7707e000u,0xfffffc00u,"x0:5,x5:5"},
{"xvreplve0.q",0x7707f000u,0xfffffc00u,"x0:5,x5:5"},
{"xvsllwil.h.b",0x77082000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsllwil.w.h",0x77084000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsllwil.d.w",0x77088000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvextl.q.d",0x77090000u,0xfffffc00u,"x0:5,x5:5"},
{"xvsllwil.hu.bu",0x770c2000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsllwil.wu.hu",0x770c4000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsllwil.du.wu",0x770c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvextl.qu.du",0x770d0000u,0xfffffc00u,"x0:5,x5:5"},
{"xvbitclri.b",0x77102000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvbitclri.h",0x77104000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvbitclri.w",0x77108000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvbitclri.d",0x77110000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvbitseti.b",0x77142000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvbitseti.h",0x77144000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvbitseti.w",0x77148000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvbitseti.d",0x77150000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvbitrevi.b",0x77182000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvbitrevi.h",0x77184000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvbitrevi.w",0x77188000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvbitrevi.d",0x77190000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsat.b",0x77242000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsat.h",0x77244000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsat.w",0x77248000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsat.d",0x77250000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsat.bu",0x77282000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsat.hu",0x77284000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsat.wu",0x77288000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsat.du",0x77290000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvslli.b",0x772c2000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvslli.h",0x772c4000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvslli.w",0x772c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvslli.d",0x772d0000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrli.b",0x77302000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsrli.h",0x77304000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrli.w",0x77308000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrli.d",0x77310000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrai.b",0x77342000u,0xffffe000u,"x0:5,x5:5,u10:3"},
{"xvsrai.h",0x77344000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrai.w",0x77348000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrai.d",0x77350000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrlni.b.h",0x77404000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrlni.h.w",0x77408000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrlni.w.d",0x77410000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrlni.d.q",0x77420000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvsrlrni.b.h",0x77444000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrlrni.h.w",0x77448000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrlrni.w.d",0x77450000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrlrni.d.q",0x77460000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrlni.b.h",0x77484000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrlni.h.w",0x77488000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrlni.w.d",0x77490000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrlni.d.q",0x774a0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrlni.bu.h",0x774c4000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrlni.hu.w",0x774c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrlni.wu.d",0x774d0000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrlni.du.q",0x774e0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrlrni.b.h",0x77504000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrlrni.h.w",0x77508000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrlrni.w.d",0x77510000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrlrni.d.q",0x77520000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrlrni.bu.h",0x77544000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrlrni.hu.w",0x77548000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrlrni.wu.d",0x77550000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrlrni.du.q",0x77560000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvsrani.b.h",0x77584000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrani.h.w",0x77588000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrani.w.d",0x77590000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrani.d.q",0x775a0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvsrarni.b.h",0x775c4000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvsrarni.h.w",0x775c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvsrarni.w.d",0x775d0000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvsrarni.d.q",0x775e0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrani.b.h",0x77604000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrani.h.w",0x77608000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrani.w.d",0x77610000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrani.d.q",0x77620000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrani.bu.h",0x77644000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrani.hu.w",0x77648000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrani.wu.d",0x77650000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrani.du.q",0x77660000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrarni.b.h",0x77684000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrarni.h.w",0x77688000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrarni.w.d",0x77690000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrarni.d.q",0x776a0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvssrarni.bu.h",0x776c4000u,0xffffc000u,"x0:5,x5:5,u10:4"},
{"xvssrarni.hu.w",0x776c8000u,0xffff8000u,"x0:5,x5:5,u10:5"},
{"xvssrarni.wu.d",0x776d0000u,0xffff0000u,"x0:5,x5:5,u10:6"},
{"xvssrarni.du.q",0x776e0000u,0xfffe0000u,"x0:5,x5:5,u10:7"},
{"xvextrins.d",0x77800000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvextrins.w",0x77840000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvextrins.h",0x77880000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvextrins.b",0x778c0000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvshuf4i.b",0x77900000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvshuf4i.h",0x77940000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvshuf4i.w",0x77980000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvshuf4i.d",0x779c0000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvbitseli.b",0x77c40000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvandi.b",0x77d00000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvori.b",0x77d40000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvxori.b",0x77d80000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvnori.b",0x77dc0000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvldi",0x77e00000u,0xfffc0000u,"x0:5,s5:13"},
{"xvpermi.w",0x77e40000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvpermi.d",0x77e80000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
{"xvpermi.q",0x77ec0000u,0xfffc0000u,"x0:5,x5:5,u10:8"},
