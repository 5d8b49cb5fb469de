"add.d",
"add.w",
"addi.d",
"addi.w",
"addu16i.d",
"alsl.d",
"alsl.w",
"amadd.d",
"amadd.w",
"amadd_db.d",
"amadd_db.w",
"amand.d",
"amand.w",
"amand_db.d",
"amand_db.w",
"amor.d",
"amor.w",
"amor_db.d",
"amor_db.w",
"amswap.d",
"amswap.w",
"amswap_db.d",
"amswap_db.w",
"amxor.d",
"amxor.w",
"amxor_db.d",
"amxor_db.w",
"and",
"andi",
"andn",
"b",
"bceqz",
"bcnez",
"beq",
"beqz",
"bge",
"bgeu",
"bitrev.4b",
"bitrev.8b",
"bitrev.d",
"bitrev.w",
"bl",
"blt",
"bltu",
"bne",
"bnez",
"break",
"bstrins.d",
"bstrins.w",
"bstrpick.d",
"bstrpick.w",
"bytepick.d",
"clo.d",
"clo.w",
"clz.d",
"clz.w",
"cpucfg",
"cto.d",
"cto.w",
"ctz.d",
"ctz.w",
"dbar",
"div.d",
"div.du",
"div.w",
"div.wu",
"ext.w.b",
"ext.w.h",
"fabs.d",
"fabs.s",
"fadd.d",
"fadd.s",
"fclass.d",
"fclass.s",
"fcmp.caf.d",
"fcmp.caf.s",
"fcmp.ceq.d",
"fcmp.ceq.s",
"fcmp.cle.d",
"fcmp.cle.s",
"fcmp.clt.d",
"fcmp.clt.s",
"fcmp.cne.d",
"fcmp.cne.s",
"fcmp.cor.d",
"fcmp.cor.s",
"fcmp.cueq.d",
"fcmp.cueq.s",
"fcmp.cule.d",
"fcmp.cule.s",
"fcmp.cult.d",
"fcmp.cult.s",
"fcmp.cun.d",
"fcmp.cun.s",
"fcmp.cune.d",
"fcmp.cune.s",
"fcmp.saf.d",
"fcmp.saf.s",
"fcmp.seq.d",
"fcmp.seq.s",
"fcmp.sle.d",
"fcmp.sle.s",
"fcmp.slt.d",
"fcmp.slt.s",
"fcmp.sne.d",
"fcmp.sne.s",
"fcmp.sor.d",
"fcmp.sor.s",
"fcmp.sueq.d",
"fcmp.sueq.s",
"fcmp.sule.d",
"fcmp.sule.s",
"fcmp.sult.d",
"fcmp.sult.s",
"fcmp.sun.d",
"fcmp.sun.s",
"fcmp.sune.d",
"fcmp.sune.s",
"fcvt.d.s",
"fcvt.s.d",
"fdiv.d",
"fdiv.s",
"ffint.d.l",
"ffint.d.w",
"ffint.s.l",
"ffint.s.w",
"fld.d",
"fld.s",
"fldx.d",
"fldx.s",
"fmadd.d",
"fmadd.s",
"fmax.d",
"fmax.s",
"fmin.d",
"fmin.s",
"fmov.d",
"fmov.s",
"fmsub.d",
"fmsub.s",
"fmul.d",
"fmul.s",
"fneg.d",
"fnmadd.d",
"fnmadd.s",
"fnmsub.d",
"fnmsub.s",
"fsel",
"fst.d",
"fst.s",
"fstx.d",
"fstx.s",
"fsub.d",
"fsub.s",
"ftintrz.l.d",
"ftintrz.l.s",
"ftintrz.w.d",
"ftintrz.w.s",
"ibar",
"jirl",
"ld.b",
"ld.bu",
"ld.d",
"ld.h",
"ld.hu",
"ld.w",
"ld.wu",
"ldptr.d",
"ldptr.w",
"ldx.b",
"ldx.bu",
"ldx.d",
"ldx.h",
"ldx.hu",
"ldx.w",
"ldx.wu",
"ll.d",
"ll.w",
"lu12i.w",
"lu32i.d",
"lu52i.d",
"maskeqz",
"masknez",
"mod.d",
"mod.du",
"mod.w",
"mod.wu",
"movcf2fr",
"movcf2gr",
"movfcsr2gr",
"movfr2cf",
"movfr2gr.d",
"movfr2gr.s",
"movgr2cf",
"movgr2fr.d",
"movgr2fr.w",
"mul.d",
"mul.w",
"mulh.d",
"mulh.du",
"mulh.w",
"mulh.wu",
"nor",
"or",
"ori",
"orn",
"pcaddi",
"pcaddu12i",
"pcaddu18i",
"pcalau12i",
"preld",
"rdtime.d",
"revb.2h",
"revb.2w",
"revb.4h",
"revb.d",
"revh.2w",
"revh.d",
"rotr.d",
"rotr.w",
"rotri.d",
"rotri.w",
"sc.d",
"sc.w",
"sll.d",
"sll.w",
"slli.d",
"slli.w",
"slt",
"slti",
"sltu",
"sltui",
"sra.d",
"sra.w",
"srai.d",
"srai.w",
"srl.d",
"srl.w",
"srli.d",
"srli.w",
"st.b",
"st.d",
"st.h",
"st.w",
"stptr.d",
"stptr.w",
"stx.b",
"stx.d",
"stx.h",
"stx.w",
"sub.d",
"sub.w",
"syscall",
"vadd.b",
"vadd.d",
"vadd.h",
"vadd.w",
"vaddi.bu",
"vaddi.du",
"vaddi.hu",
"vaddi.wu",
"vand.v",
"vbitrevi.d",
"vbitsel.v",
"vfadd.d",
"vfcmp.caf.d",
"vfcmp.ceq.d",
"vfcmp.cle.d",
"vfcmp.clt.d",
"vfcmp.cne.d",
"vfcmp.cor.d",
"vfcmp.cueq.d",
"vfcmp.cule.d",
"vfcmp.cult.d",
"vfcmp.cun.d",
"vfcmp.cune.d",
"vfcmp.saf.d",
"vfcmp.seq.d",
"vfcmp.sle.d",
"vfcmp.slt.d",
"vfcmp.sne.d",
"vfcmp.sor.d",
"vfcmp.sueq.d",
"vfcmp.sule.d",
"vfcmp.sult.d",
"vfcmp.sun.d",
"vfcmp.sune.d",
"vfdiv.d",
"vfmadd.d",
"vfmul.d",
"vfmul.s",
"vfnmadd.d",
"vfrstpi.b",
"vftintrz.l.d",
"vftintrz.w.s",
"vhaddw.d.w",
"vilvh.d",
"vilvl.b",
"vilvl.d",
"vilvl.h",
"vilvl.w",
"vinsgr2vr.b",
"vinsgr2vr.d",
"vinsgr2vr.h",
"vinsgr2vr.w",
"vld",
"vldi",
"vldx",
"vmadd.b",
"vmadd.d",
"vmadd.h",
"vmadd.w",
"vmax.b",
"vmax.bu",
"vmax.d",
"vmax.du",
"vmax.h",
"vmax.hu",
"vmax.w",
"vmax.wu",
"vmin.b",
"vmin.bu",
"vmin.d",
"vmin.du",
"vmin.h",
"vmin.hu",
"vmin.w",
"vmin.wu",
"vmsknz.b",
"vmul.b",
"vmul.d",
"vmul.h",
"vmul.w",
"vnor.v",
"vor.v",
"vori.b",
"vorn.v",
"vpcnt.b",
"vpcnt.d",
"vpcnt.h",
"vpcnt.w",
"vpickev.w",
"vpickve2gr.b",
"vpickve2gr.bu",
"vpickve2gr.d",
"vpickve2gr.du",
"vpickve2gr.h",
"vpickve2gr.hu",
"vpickve2gr.w",
"vpickve2gr.wu",
"vreplgr2vr.b",
"vreplgr2vr.d",
"vreplgr2vr.h",
"vreplgr2vr.w",
"vreplvei.d",
"vseq.b",
"vseqi.b",
"vseqi.d",
"vseqi.h",
"vseqi.w",
"vsetallnez.b",
"vsetanyeqz.b",
"vshuf.b",
"vslli.b",
"vslli.d",
"vslli.h",
"vslli.w",
"vslt.b",
"vslt.d",
"vslt.h",
"vslt.w",
"vst",
"vstx",
"vsub.b",
"vsub.d",
"vsub.h",
"vsub.w",
"vxor.v",
"xor",
"xori",
"xvadd.d",
"xvbitrevi.d",
"xvbitsel.v",
"xvfadd.d",
"xvfcmp.caf.d",
"xvfcmp.ceq.d",
"xvfcmp.cle.d",
"xvfcmp.clt.d",
"xvfcmp.cne.d",
"xvfcmp.cor.d",
"xvfcmp.cueq.d",
"xvfcmp.cule.d",
"xvfcmp.cult.d",
"xvfcmp.cun.d",
"xvfcmp.cune.d",
"xvfcmp.saf.d",
"xvfcmp.seq.d",
"xvfcmp.sle.d",
"xvfcmp.slt.d",
"xvfcmp.sne.d",
"xvfcmp.sor.d",
"xvfcmp.sueq.d",
"xvfcmp.sule.d",
"xvfcmp.sult.d",
"xvfcmp.sun.d",
"xvfcmp.sune.d",
"xvfdiv.d",
"xvfmadd.d",
"xvfmadd.s",
"xvfmsub.d",
"xvfmsub.s",
"xvfmul.d",
"xvfnmadd.d",
"xvfnmadd.s",
"xvfnmsub.d",
"xvfnmsub.s",
"xvfsub.d",
"xvhaddw.d.w",
"xvhaddw.q.d",
"xvilvh.d",
"xvilvl.d",
"xvld",
"xvldi",
"xvldx",
"xvmax.bu",
"xvmin.bu",
"xvmsknz.b",
"xvori.b",
"xvpackev.d",
"xvpackod.d",
"xvpermi.d",
"xvpermi.q",
"xvpickev.d",
"xvpickev.w",
"xvpickod.d",
"xvpickve.w",
"xvpickve2gr.w",
"xvreplgr2vr.b",
"xvreplve.d",
"xvseq.b",
"xvsetanyeqz.b",
"xvseteqz.v",
"xvst",
"xvstx",
"xvsub.w",
"xvxor.v",
"xvxori.b",
