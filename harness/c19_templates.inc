// Generated by tools/c19_templates.sh; offered to the compiler by c19.cc.
#ifdef SET_B
OFFER("{}}}");
OFFER("{{{{");
OFFER("");
OFFER("{{{0:}{{{:x{}<");
OFFER("{:^.7}0}}{1:\?}{:q");
OFFER("{1:#11\?}}}{:03.6\?}{}{:x\?}");
OFFER("{:<9\?}");
OFFER("{{{:0x}{5:x}:");
OFFER("{:\?}{{");
OFFER("a{{}}}{}");
OFFER("\303\251");
OFFER("x: {:q}\303\251{1} ");
OFFER("{:}}}\303\251");
OFFER("\303\251{:11\?}\?");
OFFER("{5:X} {:}{}{}");
OFFER("!{");
OFFER("{::>6}{:#}{:}");
OFFER("{0}");
OFFER(":{{\303\251x: \303\251");
OFFER("}}{{}}");
OFFER("{{{0:7}{:#12q\?}{1:0\?}}}");
OFFER("}}}}{}\303\251{:}");
OFFER("{1:\?}\303\251");
OFFER("\303\251}}}}{:x}");
OFFER("\303\251\?\303\251");
OFFER("{:8\?}{8:^\?}");
OFFER("{:#7x\?}{0:^");
OFFER("{{{:0}{0:X}{}");
OFFER("\303\251\303\251{:#0}{{{:!6.1}");
OFFER("<}}\303\251{{");
OFFER("{0}}}x:p ");
OFFER("{}{{{:}{:0x\?}\303\251");
OFFER("{:b}:}}");
OFFER("{0}{1:5q}{{}}");
OFFER("}}{0:}}}{:\?}");
OFFER("");
OFFER("\012");
OFFER("{:013q");
OFFER("{}\303\251 ");
OFFER("{:\?>6\?}}}{0:#\?}}}\303\251");
OFFER("{:1}\303\251 ");
OFFER("{:0.7}{0:3.1}\303\251{}");
OFFER("{0:x}");
OFFER("{:<#5.0o}\303\251");
OFFER("{1\?{:}a}}{:!#}");
OFFER("}}}}{}\012");
OFFER("{1}{0}}}");
OFFER("{}{}{1:}");
OFFER("{{{1:\?!1}{:<8o}{:!5.0\?}");
OFFER("{{\303\251{:}");
OFFER("{{{{{{{0}{{");
OFFER("\303\251{: <12}{0:b}x: }}");
OFFER("{1:} 0");
OFFER("{{\303\251{1:}}}{{");
OFFER("{}{:010}\303\251\303\2510");
OFFER("\?}}{:#{:#}{}");
OFFER("\303\251{0:#o}{1:\?}");
OFFER("{{{:}\303\251{{");
OFFER("{x:3 ");
OFFER("\?{{\303\251");
OFFER("{8:0}{:}{:^2\?}}}}}");
OFFER("\303\251\012{:^4p}{{");
OFFER("0{:<9} \303\251");
OFFER("{:^1}{:!^1}{:!<9x}<");
OFFER("b0");
OFFER("{1}{{{1:^}a");
OFFER("{}{{{:.");
OFFER("\303\251{1:}}}}}{0:03}");
OFFER("{:0");
OFFER(" {{{:!<3}");
OFFER("{:a");
OFFER("\303\251{:*<9}");
OFFER("a}}2{}");
OFFER("\303\251\303\251{:9.6\?}{}{0:0}");
OFFER("{1:^#7}");
OFFER("{:0}{1:14}{:<6\?}{1:#0}}}");
OFFER("a}");
OFFER("{1:#\?}{:}");
OFFER("{19}{:}");
OFFER("");
OFFER("{:02\?}}}\303\251");
OFFER("{1}{:^1}");
OFFER("}");
OFFER("}}{:.3X\?}{1:}{{\303\251");
OFFER("{:0<35}\303\251{:0}");
OFFER("{0:!>6q}{:}{:>7\?}");
OFFER("0");
OFFER("{1:14o}}}{1}\303\251{:!^6}");
OFFER("\303\251}}{:#\?}}}{}");
OFFER("{:0}");
OFFER("{:#0}<");
OFFER("{1}a");
OFFER("{{{{}}\303\251}}");
OFFER("\303\251{0:}{}{:#14o}{:.4q\?}");
OFFER("{:8}{:4\?}{{x: ");
OFFER("^<}}");
OFFER("{{{1:12b\?}");
OFFER("\?{{}");
OFFER("}}<:2}{{}}");
OFFER("\?{}{}");
OFFER("\303\251<}}{}\303\251");
OFFER(" {{0");
OFFER("{:X}{7:1o}<\012");
OFFER("{1}{:#q}{1:.^9\?}\303\251");
OFFER(">:#}{0:012.2}");
OFFER("{");
OFFER("{}{:0>1X}\012}}");
OFFER("{:#}}}\303\251\303\251");
OFFER("::x}{:.7}");
OFFER("}}{{{!>");
OFFER("{:.6bp\?}{:}{{}}");
OFFER("{1{");
OFFER("{1:4X}{:\?}{}{{");
OFFER("{}{: >4}\303\251");
OFFER("{{{:!#}{1:}{}}}");
OFFER("{0}{}}}");
OFFER("{:^");
OFFER("\?}}{:<6q\?}\303\251{:#b}");
OFFER("{>:q}");
OFFER("}}{:x>9}0{5338964294967293:>#9o}{:}");
OFFER("<0\303\251");
OFFER("{{{{");
OFFER("{:4x}{:^2.4}}}");
OFFER("\303\251{0:4294967311}{{");
OFFER("}}{:#>1}{}<}}");
OFFER("{:#>6}{0:#12}");
OFFER("{:<36.4}{1}}}");
OFFER("{:");
OFFER("}}{:#\?}{{\?{{");
OFFER("{1}");
OFFER("{{\303\251\303\251");
OFFER("{:}}}{:}");
OFFER("}}{}{}{{{{");
OFFER("x: }}}}");
OFFER("{0:0<}a\303\251:{:!>#}");
OFFER("x: {:{{:0}{");
OFFER("}}");
OFFER("{:>5\?}x: \303\251x: {1:#6b\?}");
OFFER("{}{p0}");
OFFER("}}");
OFFER("{0:>2q}:{{{0:9.6\?}x: ");
OFFER("{}{{");
OFFER("{1:<9}}}{{{:\?}");
OFFER("{0:3}}}:\303\251}}");
OFFER("\303\251");
OFFER("a{0}{:*^3o}{:>>9\?}");
OFFER("{}{:x3}");
OFFER("}}{1}{:}{{{0:14\?}");
OFFER("{:!o}{{{0:>6\?}");
OFFER("{}{0:.1}{{{:}\303\251");
OFFER("{:!}{0:0X}");
OFFER("}}{:3.1}{:x>2.3}");
OFFER("{{{:");
OFFER("\303\251{:10.2o}\303\251");
OFFER("\303\251{}");
OFFER("x: }}{{");
OFFER("\?\?");
OFFER("x: {0:^<6}");
OFFER("}}{{:}{{#}}");
OFFER("\303\251{{{}");
#endif
#ifdef SET_C
OFFER("{{{}{{\303\251");
OFFER("{1}{:#.5q}\303\251\303\251");
OFFER("}{}{:006\?}");
OFFER("\?\303\251}}");
OFFER("{}:\303\251{}");
OFFER("{}{{}}");
OFFER("{:o}<}}\303\251");
OFFER("{}\303\2510");
OFFER("}!}");
OFFER("\?");
OFFER("{:#4}{0:q\?}\303\251{}");
OFFER("}}0}2{\012");
OFFER("{::#4o}<");
OFFER("{6:q}{:}");
OFFER("0}}");
OFFER("{1:09}36");
OFFER("\303\251\?{1:->4q}");
OFFER("{{\303\251}}}}{:!>9.0X}");
OFFER("}}");
OFFER("{{{:#0.4\?}{:<4.7o\?}{:>16}");
OFFER("a{{{{");
OFFER("<");
OFFER("\303\251{: <1\?}{1:!011\?}");
OFFER("{0}\303\251");
OFFER("{{}}");
OFFER("\303\251");
OFFER("}}{:\?}");
OFFER("\303\2510");
OFFER("}}{}0\303\251{:o\?}");
OFFER("\303\251\303\251{{}}");
OFFER("{{{}");
OFFER("x: a");
OFFER("\303\251");
OFFER("\303\251{{{{");
OFFER("\303\251}}<\303\251");
OFFER("{0:^3.4}{^^9.0");
OFFER("");
OFFER("{:0.4X\?}:\012");
OFFER("\303\251{}");
OFFER("{}}{{");
OFFER("{{0{:!<<4}");
OFFER("}");
OFFER("{:!\?}{0:}{{{:\?}}}");
OFFER("");
OFFER("{}}}\303\251{{");
OFFER("{}\303\251{0}0{{");
OFFER("{{{:.5}{0:^5}{0:}{{");
OFFER("}}}}{{{:!>}");
OFFER("\303\251\303\251}}{{");
OFFER(" p");
OFFER("{}{{}}a}}");
OFFER("{}");
OFFER("{:0.0q}:a}}");
OFFER("{:1");
OFFER("\?{0:}{:\?}{x}");
OFFER("{1:7o}{1:!<6}\303\251{:0\?}{1:#.6q}");
OFFER("{{\303\251{{{:>4x\?}");
OFFER("{0:\?}{0}{1:! <9q\?}{:q\?}{:1");
OFFER("\303\251{{}}{{");
OFFER("{{<");
OFFER("{1:>4.5X}{{\303\251{:^>1}");
OFFER("{10:#5x.<{:");
OFFER("}}\?{:>5b}}}");
OFFER("{0}");
OFFER("\303\251");
OFFER("}}{0:<8x}{:12}");
OFFER("}}{1:^2o}{:0\?}");
OFFER("{}0");
OFFER("a}}{0:#<");
OFFER("{}");
OFFER("\303\251");
OFFER("\012");
OFFER("\012{0:^^7}");
OFFER("");
OFFER("}}{{\303\251 {:#X}");
OFFER("\303\251");
OFFER("{11:1}");
OFFER("{{:<1\?}");
OFFER("{{\012}}x: ");
OFFER("}}}{:^7.2\?}a}");
OFFER("{:!^}{:1.1}");
OFFER("{}\303\251}}{{");
OFFER("{}<\303\251{0:}\303\251");
OFFER("{{\303\251{}}}");
OFFER("\303\251");
OFFER("{{\303\251:{{");
OFFER("}}}}");
OFFER("<{:0\?}{0:\?}\303\251\303\251");
OFFER("\303\251");
OFFER("{0}}}{0:<>24.5}");
OFFER("{{a:\303\251{}");
OFFER("a\303\251<");
OFFER("{1}{0:#.4x\?}{0:!0\?}\303\251");
OFFER("{:#8o}{{\303\251{{");
OFFER("{{{{");
OFFER("\303\251");
OFFER("{:!^4}{{{:o}");
OFFER("{{{:2\?}{:!^^6\?}{:o}");
OFFER("{1}{{{:.4X}{}}}");
OFFER("}}0{:#0\?}");
OFFER("}}{:\?}{}}}{:8}");
OFFER("\012}}\303\251{0:->8\?}");
OFFER("a");
OFFER("{{{3q13b}{1}}}");
OFFER("{:}");
OFFER("{1:03}");
OFFER("<}}\303\251<");
OFFER("{0:#01o}\303\251}}{1:^>5}{:#12}");
OFFER("{ {");
OFFER("{:}{:}{:#<3\?}");
OFFER("2{00:}");
OFFER("{10:<1\?}{0:#x}");
OFFER("\303\251{{{0:X\?}{0:x\?}{11:}");
OFFER(":");
OFFER("{1:#}\303\251 ");
OFFER("}}{:!<#6\?}");
OFFER("{^5\?}}}");
OFFER("{{\303\251<");
OFFER("0:<^3.6}");
OFFER("}}\?{:!#.4X}{:}");
OFFER("x}}}}\012");
OFFER("{:#2}{{{:!0}{0:}\303\251");
OFFER("{{{{{9:4}{{{{");
OFFER("\?}");
OFFER("x: :{{{:!x^26.1o}");
OFFER("{{{{{:12}\303\251x: ");
OFFER("{}");
OFFER("{a}");
OFFER("\?}}\303\251{}{{");
OFFER("");
OFFER(":");
OFFER("{:<7.4\?}");
OFFER("{:#>8}");
OFFER("{:^b}{1:\?}{0}{{}}");
OFFER("{:}{0:b\?}");
OFFER("\?\303\251\303\251}}{::>6q}");
OFFER("}}{1}{}");
OFFER("{:#x}");
OFFER("\303\251}}");
OFFER("\303\251{{{:}\303\251");
OFFER("\303\251}}{{\303\251}}");
OFFER("{1:#\?}}}}}\303\251\303\251");
OFFER("{:\?");
OFFER("{:#}{:<9q}");
OFFER("{q}");
OFFER("\303\251}}{0:^7}}}");
OFFER(":{:5b}\303\251}}{1:\?}");
OFFER("{: <8\?}{1:>#7\?}{{\012{");
OFFER("\303\251");
OFFER("}}");
OFFER("{{}}\303\251{{");
OFFER("{{{9:<>4}\303\251{:#13\?}{{");
OFFER("\303\251");
OFFER("{0}{1:!1}}}{:0x} ");
OFFER("{:!^9\?}}}");
OFFER("{{{{");
OFFER("{}}}:}}");
OFFER("{{0{{\303\251}}");
OFFER("{:9.6}\303\251{0} {1:\?}");
OFFER("{:}{:#}{1}");
#endif
#ifdef SET_D
OFFER("0}}{:!o}");
OFFER("{:5.3\?}{0:>22}:\303\251");
OFFER("}0:! >#2q}\?{:x");
OFFER("\303\251{{}}}}{:#o}");
OFFER("\303\2510 \303\251}}");
OFFER(" {{{8:}");
OFFER("{{{0:o\?}\012{:0>3}{0:\?}");
OFFER("\303\251}}{:#b\?}");
OFFER("{:0}{:->8\?}");
OFFER("{}x: {:#b}\303\251}}");
OFFER("0");
OFFER("{{:{{{:>#1.1}");
OFFER("{}");
OFFER("\303\251");
OFFER("{2}{:0}\303\251");
OFFER(":o}}}:{1:^21");
OFFER("{{x: \303\251{0}");
OFFER("{:4294967308\?}\303\251{2:\?}");
OFFER("x: ");
OFFER("\303\251");
OFFER("\303\251{}\303\251{:<13.3}");
OFFER("\303\251");
OFFER("{1:#04294967299.1x}{:5}{:<.1q}0\303\251");
OFFER("{:!\?}}}");
OFFER("{{{::^9.3x\?}");
OFFER("0{{{:#}{:0\?}{:3o}");
OFFER(":{}\012}}}}");
OFFER("::9\?}");
OFFER(" {0}{:b}");
OFFER("{{{:^>#8x}{:^<#8.0o\?}{8}<");
OFFER("}}{}{}a");
OFFER("\303\251");
OFFER("\303\251");
OFFER("{:.5}{}{}{}");
OFFER("\303\251");
OFFER("{:!.2}}}}}");
OFFER("{0:<>4\?}{:#11\?}{{a");
OFFER("}}}}{:!#00.2X}\303\251");
OFFER("\012");
OFFER("}}{:#0\?}\303\251{:9.7}\303\251");
OFFER("{}");
OFFER("{:^8}{1:!^>9\?}{:\?}{{");
OFFER("\303\251\303\251}}{2:10}\303\251");
OFFER("{{{:-^2X}\303\251{1:0x}");
OFFER("0{2#.2q}{{ ");
OFFER("{0:6x}{:#}{:}{1} {2:^<3}");
OFFER("{#^7}{{{1:!9x\?}\?");
OFFER("{:#14\?}{{}}\303\251");
OFFER("}}{1:{^6\?}{:#^>2}{:\?\?}");
OFFER("x: {:.6\?}{{{:^7o}");
OFFER("{:>2}{:^3}{0:0\?}");
OFFER("\303\251");
OFFER("{:#o}{{x: }}");
OFFER("{{}}x: {0:o}");
OFFER("}:{");
OFFER("}}a");
OFFER("{1#}{:.4}{2}{{{{");
OFFER("}}\303\251{0:\?}{:\?}");
OFFER("{:b1x}\012{:#<>3}<");
OFFER("p{{:>3\?}");
OFFER("x: \303\251\303\251");
OFFER("\012{0:0}{{{1}\303\251");
OFFER("{\?}");
OFFER("{3");
OFFER("{:00\?}{");
OFFER("\?}");
OFFER("{{{13:!<^4}}}}}{:#}");
OFFER("\303\251");
OFFER("\303\251{1}{:}{{\303\251");
OFFER("{{a{x^9.7o}");
OFFER("{\?6.204254294967297:\?}:{:12}");
OFFER("x: {{");
OFFER("\303\251{:6}}}");
OFFER("{:}\303\251 {{");
OFFER("}}");
OFFER("\303\251{{\303\251}}{{");
OFFER("x: {7923444294967298}\?");
OFFER("{x:a}}");
OFFER("{{");
OFFER("{{x: {:0}{:\?}x: ");
OFFER("{: >6}{:4o}\303\251");
OFFER("{{{1:!#\?}}}");
OFFER("\303\251\303\251");
OFFER("{}{{{:.1\?}\303\251");
OFFER("{:<2b\?}{:<8}{}\303\251<");
OFFER("}}0{1:*>0}:{{");
OFFER("{:#9.6o}{}");
OFFER("\0121:.>34}{0:^9b}\0120");
OFFER("{}");
OFFER("{1:#.0\?} <");
OFFER("<\303\251{{{{");
OFFER("{{{{{0#2b}");
OFFER("{}{}\303\251");
OFFER("\303\251{:!\?>6}x: {:>.3} ");
OFFER("{}{{");
OFFER("}}");
OFFER("{{}}{:*<4.5q}{:.}}");
OFFER("\303\251{:<23}{:}{2:0}<");
OFFER("\303\251{{");
OFFER("0{}:a}");
OFFER("{2:}\303\251");
OFFER("{:b}");
OFFER("0{:#<4}\303\251");
OFFER("}}}}}.}");
OFFER("<{}}}{:}");
OFFER("{2:}{3:X}");
OFFER("{:q}}}{}");
OFFER("{:}}}{{");
OFFER("}}}}}}");
OFFER("{0:.3\?}\303\251x: ");
OFFER("\303\251");
OFFER("{2:q}");
OFFER("{:1}");
OFFER("\303\251");
OFFER("{:\?>\?}}}{{");
OFFER("\303\251\303\251");
OFFER("{}}}{}:");
OFFER("\303\251");
OFFER("{{1\?");
OFFER("}}\012{1:o\?}");
OFFER("{2:#b}{}");
OFFER("{}\012\?");
OFFER("{{{:!b\?}{:!<9}\303\251");
OFFER("\303\251{0:4}{{");
OFFER("}:{}{");
OFFER("}}0{:#7q}{0:\?}\303\251");
OFFER("a\303\251{{{}");
OFFER("{}{{}}{}");
OFFER("{{{:\?}:{:8qq}");
OFFER("\303\251}}{1:13q}{0:!0X}");
OFFER("a{2:}\303\251\303\251");
OFFER("{2");
OFFER("{{a{b:^9}{:#6\?}{1:^34}");
OFFER("{:#\?}}}{:#}");
OFFER("{");
OFFER("}}{:!10}");
OFFER(".}}x}");
OFFER("{0:}{:.5}\0120{1:0>3}");
OFFER("\303\251 }}{1:\?}");
OFFER(":");
OFFER("}}{:-^6.5}a<}}");
OFFER("}}}}\?}}");
OFFER("\303\251{:\?}{:\?<5}{:>X}");
OFFER("\303\251{:#x}{1:!13x\?}{:#0}");
OFFER("{{a}}");
OFFER("{}{:!0^6}\?{0}");
OFFER("\303\251");
OFFER("\303\251");
OFFER("{::<2.7X}{:0o}{{");
OFFER("{}{:a!^#.1o}\012");
OFFER("{:#9}:\303\251{2:01}");
OFFER("{{{");
OFFER("\303\251{{\303\251\303\251{}");
OFFER(" ");
OFFER("{1:\?}}}");
OFFER("a:{:");
OFFER("}}\303\251}}}}");
OFFER("{:\?}");
OFFER("{>^3\?}}}");
OFFER("{{{:>>1q}{{{1pa13}}}");
#endif
#ifdef SET_E
OFFER("{}\012{1:x\?}}}");
OFFER("\303\2510");
OFFER("b");
OFFER("\?{:\?}{:>#8\?}\303\251{:{>10\?}");
OFFER("x{{{");
OFFER("}}");
OFFER("{1p:!6\?}}}");
OFFER("{{}}{{\303\251\012");
OFFER("\303\251\303\251");
OFFER("\303\251{:.<6}{{");
OFFER("{2:#q}{:00p0{:7.5q}{:0}");
OFFER("2{:}");
OFFER("");
OFFER("{:->1\?}{2:^1:}x: ");
OFFER("{0: <8}{:#\?}{{");
OFFER("\303\251\303\251{2:0}{{");
OFFER("\?{{\303\251\303\251{{");
OFFER("{}{{ ");
OFFER("{:7}{:10x\?}");
OFFER("{{{:#b\?}\303\251");
OFFER("{}{{{{}");
OFFER("{{{0}\303\251");
OFFER("}}{1:}");
OFFER(":0");
OFFER("{2}{{{:}{:#}{}");
OFFER("{:}{:o\?}{{{:!q\?}");
OFFER("{}{q}{2:>^9}{>3}}}");
OFFER("}}{0}}}}");
OFFER("{:}");
OFFER("{}{0:#}{1:#}{:0x}{:0}");
OFFER("\303\251");
OFFER("");
OFFER("{0:b}\303\251{{");
OFFER("{:\?}");
OFFER("\303\251{{}}}}");
OFFER("\?{1:}{{ {:}");
OFFER("{:<2.2\?}{:4\?}\303\251{{{{");
OFFER("{{{0:\?");
OFFER("{1::^8");
OFFER("{{\303\251{:13.6}");
OFFER("{{");
OFFER("{:#}{{\303\251}}");
OFFER("}}\012{{");
OFFER("\303\251");
OFFER("{:#\?}");
OFFER("  {2:}{:0}");
OFFER("{:x\?} \303\251{:q\?}");
OFFER("{:.1}}}\303\251}}{2}");
OFFER("{:!#\?}{:13q}{}");
OFFER("a{{}");
OFFER("x}}\012");
OFFER("");
OFFER("");
OFFER("\303\251{:2\?}{{{:#8}");
OFFER("}}{{}}{}\303\251");
OFFER("\303\251\303\251{:<#4}x: {1:.3}");
OFFER("0{:#}");
OFFER("\303\251<{} ");
OFFER("{1:>2\?}}}\303\251\303\251");
OFFER("}}\303\251x: {:^^8\?}");
OFFER("\303\251{{:}}\303\251");
OFFER("{{");
OFFER("<\?");
OFFER("}}\303\251\303\251");
OFFER("\?\?{1:13}\012{:^3}");
OFFER("\?}}");
OFFER("{0}{}0");
OFFER("<{{a{1:#4.6}");
OFFER("0{:1");
OFFER("{>:");
OFFER("}}a{:0}0");
OFFER("0{{{}:{");
OFFER("}}{q>7..2}{{");
OFFER("}}{:13\?}<");
OFFER("\303\251\303\251{:>#4.6}\303\251{{");
OFFER("\303\251}}{1}\303\251}}");
OFFER(" ");
OFFER("{:#o}{:!12}{:!#^8}}}{{");
OFFER("}}");
OFFER("{p#^8\?}{{}");
OFFER("}}{:}\303\251:");
OFFER("{:>^#6}{:}{}");
OFFER("x: \303\251{{");
OFFER("\?{1:0.0\?}{");
OFFER("<{:0b}{:!^<#7b\?}}}");
OFFER("{0}{}}}\303\251");
OFFER("a{:1}\303\251{:!2\?}{2:<q}");
OFFER("a\303\251\303\251}}");
OFFER("}");
OFFER("{{}}{{");
OFFER("{1:x}");
OFFER("3}}{{a{{{:}");
OFFER("a{:!.^8}}}");
OFFER("{2:#6.6}{:#<2\?}:{0:*<6z\?}");
OFFER(" }.}{{");
OFFER("{#0}}0x: {}");
OFFER("{:}xp");
OFFER("{:^6.3\?}{: ^8o\?}{:#}{0:^6.2X\?}");
OFFER("{0:#}{7:\?}0{2}");
OFFER("{:0q\?}<\303\251{}{2:.6\?}");
OFFER("{:b}\303\251");
OFFER("{:0>#2\?}:{2:#}");
OFFER("{: <4}x: {{{}");
OFFER("{:>1}{:}{:*>37b}{:x<3\?}{}");
OFFER("}}a{1:\?}{:011.1\?}}}");
OFFER("x: {:^#9}{{\?");
OFFER("{:\?<5x}{}{}{2:#14}\012");
OFFER(" {:>8o}{}}}{{");
OFFER("{:0\?2}\012");
OFFER("{}{{{{");
OFFER("\303\251{{");
OFFER("{:!#}{:o\?}\?{:#>5.1\?}{{");
OFFER("\303\251");
OFFER("{:>1}}}x: {: >9X}{}");
OFFER("{{}}\303\251{{");
OFFER("{}{:#0}{2}{0}\303\251");
OFFER("{0}{}}}{{");
OFFER("0{:X\?}");
OFFER("\303\251");
OFFER("{:6\?}{}{:<>8}}}\303\251");
OFFER("{:!#\?}");
OFFER("a{:012o}{0:}\303\251");
OFFER("{0:0\?}{:<>1}\303\251{:#0.6}\303\251");
OFFER("{2!->5}<");
OFFER("<");
OFFER("{:#03x}}}}}");
OFFER("{{{}");
OFFER("{1} }}:}}");
OFFER("\303\251");
OFFER("{:x>26}\303\251{:5.5}");
OFFER("{:^4}\303\251}}\?");
OFFER("{:#}{:#}<0{2:#^4.3");
OFFER("{{");
OFFER("}}{{{{{{:");
OFFER("{2:.4}{:14}{}{2}");
OFFER("{:.1}");
OFFER("{2:X}{0:!\?} a\303\251");
OFFER("x: {1:#<4.7");
OFFER("{");
OFFER("{:#}{0:!#}}} {1}");
OFFER("}}:}p} ");
OFFER("a{2:14.6}}}");
OFFER("}}");
OFFER("\303\251{{\303\251<}}");
OFFER(":{{\303\251{:*^1}");
OFFER("{:#q}{1}");
OFFER("{0:q\?}0{{\303\251");
OFFER("{:}{:b}}}\?");
OFFER("{{{:o\?}\?}}{}");
OFFER("{:10.4}");
OFFER("{1");
OFFER(" {{<\303\251{:}");
OFFER("{2:.<9x\?}{:\?}{{ ");
OFFER("\012\012\303\251");
OFFER("{{a\012{:x\?}");
OFFER("}}:\303\251");
OFFER("}}");
OFFER("\012}}{:}\303\251");
OFFER("}}\303\251<{{{{");
OFFER("\303\251{{ \012");
#endif
#ifdef SET_F
OFFER("{0:>2q}{{{!{:4}a");
OFFER(" {0:#>}");
OFFER("\303\251{}\?{{{:>8}");
OFFER("{2}");
OFFER("{:#} \303\251{}{}");
OFFER("");
OFFER("{:5\?}{:*>1}{2}");
OFFER("\303\251");
OFFER("{.{{:^1\?}{:\?}");
OFFER("{:10}");
OFFER("{:!}{11}{:>9b}{0:<2q}{:#10\?}");
OFFER("}{}");
OFFER("x: \303\251\303\251\?");
OFFER("\303\251{:3.1}{{");
OFFER("\303\251{:<.1}");
OFFER("{p");
OFFER("{{{:#x}{:!^6q}{:^6o\?}}}");
OFFER("{:");
OFFER("{:#1\?}{}{:-^2q");
OFFER("{:}\303\251{:.>#1}}}");
OFFER("{2:X}{:!1bx}");
OFFER("{:!.6X\?}}}\303\251<{0:b}");
OFFER("}}}} \303\251\303\251");
OFFER("{1:}{0:4");
OFFER("{{{{{:0\?}");
OFFER("\303\251:{:*^3}{1:#.2x}{{");
OFFER(">}{");
OFFER("{1:^7}{{\303\251{:!#\?}");
OFFER("{{\303\251\303\251{:\?<1b}");
OFFER("}}");
OFFER("\303\251}}{}");
OFFER("{:o}");
OFFER("}}<{");
OFFER("\303\251{:.2}");
OFFER("{q:b}{0:>#2}");
OFFER("{0:9}:\303\251");
OFFER("\012{94976042949672");
OFFER("\303\251x: {:<38\?}");
OFFER("}a{");
OFFER("{{{:!#>7x}\012a{:^2X\?}");
OFFER("\303\251");
OFFER("\?\012\303\251{:^1}{:\?>3\?}");
OFFER("\012\?");
OFFER("{{\?3:{>1}{:\?}");
OFFER("{{{:}{:q}{2: <8.2}");
OFFER("{:0ab}}3}0{{");
OFFER("{:#0q}");
OFFER("{0:}{:<4\?}");
OFFER("\303\251\303\251}}");
OFFER("}}:{2:#\?}{:<}\303\251");
OFFER("{}\303\251{{{:!^8}{:!#o\?}");
OFFER("{:X\?}{:#}{2}{:x<1}");
OFFER("{{{:>>#23\?}{:^5}");
OFFER("}}");
OFFER("\303\251\303\251{{");
OFFER("{1}");
OFFER("ax: {:<9Xq}}}0");
OFFER("{}\303\251{2:<6X}\303\251");
OFFER("{{");
OFFER("\303\251");
OFFER("\303\251{:0}}}");
OFFER("{1:#}{}{1");
OFFER("}}\303\251\303\251{}{{");
OFFER("{1:\?}{{");
OFFER("{:}{:x}a{:!12");
OFFER("{{");
OFFER("}}{}");
OFFER("{}{0:}{{:X\?}");
OFFER("{:!X}");
OFFER("}}}}");
OFFER("\303\251");
OFFER("\?\303\251a");
OFFER("{{}}{:!#01}");
OFFER("{2:}{{{:011}}}}}");
OFFER("{:#\?}\012{{3");
OFFER("{{{:!^<1.4\?}{: >#1}{{\303\251");
OFFER("\303\251");
OFFER("{{}}{}");
OFFER("{}0{:<4}");
OFFER("\303\251\303\251");
OFFER("}}{:#q\?}");
OFFER("{}\303\251");
OFFER("\303\251 {1}");
OFFER("\303\251");
OFFER("{:0}\303\251{:}:");
OFFER("");
OFFER("\303\251:");
OFFER("{{{}\303\251{:0.7}");
OFFER("\012{:.4X}}}}}{2:}");
OFFER("\303\251}}}}{}{:#\?}");
OFFER("0{0:>>6\?}");
OFFER("\303\251}}{{<");
OFFER("{}}}x: ");
OFFER("}}{:^#28}");
OFFER("\303\251{:>>24}");
OFFER("}}\012{:#\?}\303\251:");
OFFER("{:!0}");
OFFER("{2:#1o\?}{2:13.6}");
OFFER("{0}");
OFFER("{:!:^o\?}");
OFFER("{:.1\?}\303\251\303\251{{\303\251");
OFFER("{:#11.4}\303\251");
OFFER("{:}");
OFFER("{}a");
OFFER("\303\251{{:{:^6.6}");
OFFER("}}");
OFFER("0{2:>1}\303\251");
OFFER("x: }}}}{:}{0:\?^4}");
OFFER("}}");
OFFER("}}}}{:#0}");
OFFER("}}{0:>9}{:<7q}");
OFFER("}}");
OFFER("{{\303\251{0:} ");
OFFER("{{}}}}{0:#0\?}}}");
OFFER("\303\251\012");
OFFER("{{:!o\?}{:X\?}{:14}{10:>>2.6}\012");
OFFER("{:!<9.7\?}\303\251");
OFFER("{:03.5}a{:^8\?}{}");
OFFER("{.");
OFFER("");
OFFER("}}}}{:^6X}");
OFFER("{0}}}{:#2X}");
OFFER("{:\?}{0:^#9b\?}}}");
OFFER("{{{:}{:6.3}}}");
OFFER("}}{1:}{}");
OFFER("{:!#.1o}{}{0:4X}}}");
OFFER("{:!<8}{3:>^7\?}{2:11}{0:#.5\?}{2:!0.1\?}");
OFFER("");
OFFER("\303\251}}\?}}");
OFFER("\303\251{7:.7x\?}<");
OFFER("}}{2:><6q\?}");
OFFER("{3");
OFFER("{");
OFFER("\012\303\251");
OFFER("{:}{1:#.0}");
OFFER("{");
OFFER("}}}}");
OFFER("{0}}}");
OFFER("{: >8}{0{!^9}}}{:08");
OFFER("{:X}\303\251{2:<>9.2\?}<");
OFFER("}}{{{{{{");
OFFER("{{\303\251{{");
OFFER("{:0^#7b}\303\2510a{{");
OFFER("}}{1:}{{a");
OFFER("{{{2}\303\251");
OFFER("}}{}");
OFFER("}}{:#b}\303\251");
OFFER("{:! >#29\?}\303\251");
OFFER("{:!\?}\303\251{:}{}");
OFFER("\303\251{:>#2.7X}\303\251{2:}{1:0<8}");
OFFER("<{0");
OFFER("{:.^8\?}\303\251a");
OFFER("}}\303\251{}");
OFFER("\?a}}\303\251");
OFFER("{:2}{1:<2}1}");
OFFER("\303\251");
OFFER("\303\251\303\251}}{:0.7x}}}");
OFFER("0}");
OFFER("{{{");
OFFER(" ");
#endif
#ifdef SET_G
OFFER("{:b\?}{:{<#20o\?}}}\303\251{}");
OFFER("\303\251{1:x}");
OFFER("{0}{{");
OFFER("{2:\?}{0:#\?}{}{{ ");
OFFER("{{ \303\251\303\251");
OFFER("{1:X}{}");
OFFER("{{<\303\2510");
OFFER("a}}\303\251");
OFFER("\303\251{2}{}{0:^4.6\?}");
OFFER("{:}{:3.}3}{5:#6}{.{}}");
OFFER("}}:");
OFFER("{{{2:.6\?}");
OFFER("{:^2.7\?}{:!{<b\?}{}");
OFFER("{8:#b}\303\251}}}}{:4\?}");
OFFER("{1:\?}{:0o\?}{:!}\303\251");
OFFER("}}\303\251");
OFFER("}}{:.2\?}}}");
OFFER("{:02.2o\?}{");
OFFER("{:<5.7\?}");
OFFER("{:#11o\?}}}}}");
OFFER("{{");
OFFER("");
OFFER("\303\251 }}}}}}");
OFFER(" \012\303\251");
OFFER("{:}}0}}{{}}");
OFFER("\303\251{}{{");
OFFER("{}}}!{.}");
OFFER("{{\303\251");
OFFER("x: {1:<6}}}{:}\303\251");
OFFER("\012{7300614294967296:q!3}");
OFFER("}} {");
OFFER("{:^9.2}");
OFFER("{1}");
OFFER("\303\251");
OFFER("\303\251");
OFFER("\303\251");
OFFER("\012{}}}");
OFFER("{1:}:\303\251");
OFFER("\303\251");
OFFER("{:!x^33}{}{10:>#3}");
OFFER("{}}}\303\251");
OFFER("{:^17x\?}}}");
OFFER("}}{");
OFFER("{:#0}}}{{}}");
OFFER("{}{:0.2b\?}");
OFFER("0x: ");
OFFER("}{2}{1}");
OFFER("{:14\?}\303\251{7:^4x}}}{11}");
OFFER("\303\251:{:{<3o}{{<");
OFFER("");
OFFER("\303\251{1:9b}{{\303\251");
OFFER("{:9X\?}{}{:<1.4\?}}}\012");
OFFER("\303\2510<\303\251{0:#.4}");
OFFER("{}{:<#32}\303\251");
OFFER("}}\303\251");
OFFER("{:}{:o}{:}}}");
OFFER(" {q{");
OFFER("{:<1}}}{0:#0q\?}");
OFFER("\?:#.2}}}{{\?");
OFFER(" {:4}\303\251");
OFFER("{:#}\012}}{:}{:#10.7b\?}");
OFFER("\303\251}}{2}");
OFFER("{2:>4}");
OFFER("\303\251}}");
OFFER("{<}");
OFFER("{2:.^1.5\?}{:#\?}{:!>7}");
OFFER("}}{:^1}x: ");
OFFER("\303\251{2:#x\?}\303\251{{{}");
OFFER("\303\251}}\012{0:}");
OFFER("{0}\303\251{7}{{}}");
OFFER("{#<}");
OFFER("{}{:q}");
OFFER("{1}{}\303\251");
OFFER("{0:x>.1o}\?{{\303\251{1:#}");
OFFER("0");
OFFER("{0:^3}");
OFFER("x: {{");
OFFER("\303\251");
OFFER("{}{:\?^3q}");
OFFER("{{{0:!<o}");
OFFER("\303\251{{\303\251");
OFFER("\303\251");
OFFER("}{1:}");
OFFER("{{{:<1}{:>4:");
OFFER("q\?");
OFFER("{{");
OFFER(" {2}}}");
OFFER("{{a{{{}{:#08\?}");
OFFER("{{\303\251}}");
OFFER("\303\251{}{{");
OFFER("\303\251{:\?^18p}{{\303\251\303\251");
OFFER("{:^4b}\303\251");
OFFER("{{");
OFFER("}}}");
OFFER("}}}}");
OFFER("<");
OFFER("{:.7q\?}");
OFFER("\303\251{{");
OFFER("{{");
OFFER("{:6X}0x: ");
OFFER("");
OFFER("{:^2}{2:!#X}{1:>#3.7x}{2}\303\251");
OFFER("{0}{}}}{0:>#2}");
OFFER("}}{{{11:#x}{0:#\?}{:}");
OFFER("{}\303\251");
OFFER("\303\251\303\251{2}\?{:X\?}");
OFFER("}}{{");
OFFER("{:7}{^^32X}{2}}}");
OFFER("}}{:!>3q\?}}}\?");
OFFER("\012\303\251}}{:}<");
OFFER("\303\251");
OFFER("{2}{2:.5\?}{}");
OFFER("\303\251{:!0}:");
OFFER("{{ {{\303\251");
OFFER("{{");
OFFER("}}{{");
OFFER("\303\251x: x: {}");
OFFER("{{{{{{\303\251");
OFFER("\303\251{:!*^7\?}");
OFFER("{:^8.<}{{{6:}");
OFFER("{:!{^q\?}\303\251{}");
OFFER("<{}}");
OFFER("<{{{:1\?}{:#07}\303\251");
OFFER("{");
OFFER("{{{}{:!0<3.1\?}}}");
OFFER("{{:");
OFFER("{{{0:^9\?p}");
OFFER("");
OFFER("\303\251\012");
OFFER("x 1\012");
OFFER("{}<{0:^1}}}{{");
OFFER("\?{2}}}}}");
OFFER("{ :#b\?}");
OFFER("{{}{2:>^30o\?}");
OFFER("{{>{:<<3}}}{:<<7}");
OFFER("{0:09}}}{::>4}{5:!<32}}}");
OFFER("{:}{{");
OFFER("2<}{{");
OFFER("a{0}\303\251{1:!!<7\?}");
OFFER("{:q}{:q\?}");
OFFER("{0:}{:12.2}{}{{");
OFFER("{10:#");
OFFER("{:9.6}{:#\?}{{{}\303\251");
OFFER("}}");
OFFER("{2:#b\?}}}{{\012{:}");
OFFER("{:!x}\303\251{}\303\251\303\251");
OFFER("\012{:x}");
OFFER("{}{:13}");
OFFER("");
OFFER("");
OFFER(" ");
OFFER("}} \303\251{:^<2\?}{:>}");
OFFER("{0:0}}}}}}}");
OFFER("{1:^9\?}a{{}}");
OFFER("{:<13X}{0:0}");
OFFER("\303\251{{{:b}");
OFFER("}}{{{{\012{2:^^39.1X\?}");
OFFER("x: ");
OFFER("");
OFFER("}}{:>3\?}\303\251");
#endif
#ifdef SET_H
OFFER("\303\251{{");
OFFER("{{\303\251");
OFFER("0");
OFFER("{:<1.2\?3}{{{{{:!#010}}}");
OFFER("}}{0:2b}");
OFFER("}}{:^6p}{0:>3o}{:<7\?}");
OFFER(":}}}");
OFFER("{{{{{:\?}\303\251");
OFFER("{{{0}");
OFFER("{{}");
OFFER("{1}\303\251{:>6}}}");
OFFER("a{:!!<4q}{{a\303\251");
OFFER("}}{:}{{{{ ");
OFFER("\303\251\303\251");
OFFER("\303\251{{{{{:}");
OFFER("}}{{{}\303\251}}");
OFFER("{}{}\303\251");
OFFER("{:x\?}\303\251{}\303\251x: ");
OFFER("\303\251");
OFFER(" {{:!4b>{{}}");
OFFER("{1:#07X}{1:\?}");
OFFER("\303\251");
OFFER("{:-<6X}{:^8.7o\?}");
OFFER("}}{:}");
OFFER(">>}{:o}");
OFFER("{}{{{:#o\?}\303\251{1:#10X}");
OFFER("{:o}{:}{:^^4.4o}{}{}");
OFFER("{1}{1}}}}}:");
OFFER("{{");
OFFER("}}}}\303\251{{");
OFFER("{:>");
OFFER("{:^2\?}{{\012\303\251{1}");
OFFER("{}{0:<4.0}}}a");
OFFER("{:9.4}{{{:14x}}}{{");
OFFER("{{{{\303\251");
OFFER("\303\251{}\303\2510}}");
OFFER("< }}}}{:6q\?}");
OFFER("<{:*>8}\303\251}}\303\251");
OFFER("{:>9\?2{{ ");
OFFER("{1}{0:>2.2}{0:<#9\?}{{\303\251");
OFFER("}}{{ {{");
OFFER("{1:#06o\?}{}:<6}{:0. \?}");
OFFER("\303\251");
OFFER("}}\303\251{:0>33}{:#.4\?}0");
OFFER("{:^#7}{{{}{");
OFFER("\303\251{0}\303\251{:.6\?}");
OFFER(" {:#3x}{{\?");
OFFER("\303\251");
OFFER("\303\251\303\251{{{0}");
OFFER("{00\?}{");
OFFER("{{");
OFFER(" }}}}{{{:");
OFFER("\?{{:\303\251{0:>}");
OFFER("{:12X}{:<<2}{{");
OFFER("0{:!^#4}{{\303\251");
OFFER(":{{{}}}");
OFFER("{{\303\251\012{{");
OFFER("{:0>3}\303\251");
OFFER("{}:");
OFFER(":{{}}{{");
OFFER("{}\303\251{{");
OFFER("}}{1:\?}");
OFFER("\303\251");
OFFER("{1:#0.1}{1:!0x}{0::>8.5}x: x: ");
OFFER("\303\251{:03}{0}");
OFFER("}}^1:4");
OFFER("\303\251{:5}");
OFFER("{:o\?}{{{:^");
OFFER("\012{{\303\251}}x: ");
OFFER("{1}{:^32} }}{:014}");
OFFER("\303\251{0:b}\303\251");
OFFER("x: {:}{::<#3X}}}");
OFFER("{{\303\251{:.2}{:<<4.1}{}");
OFFER("{{3{:0}{a14}{{");
OFFER("}{:#}{:2}{{{:0\?}");
OFFER("0\303\251{{\303\251");
OFFER("{{\303\251");
OFFER("{{");
OFFER("{{{}{0:.0}");
OFFER("{1:q}{{");
OFFER("{:!}{1}{:0.4\?}\303\251{1}");
OFFER("{{{:<1}");
OFFER("\303\251{:0>\?}}}}}{}");
OFFER("{{\303\251");
OFFER("{1:.7x\?}{{}}{{");
OFFER("\303\251{:#2\?}<");
OFFER("}}{{{1}");
OFFER("\303\251 {0}");
OFFER("{:!^8b}{:0^9}");
OFFER("{1:^5}{00x\?{}}}");
OFFER("{:*>4o}\303\251\303\251{:0.7X}{0}");
OFFER("{8:0}{07");
OFFER("{{{1:#0\?}}}}}");
OFFER("\303\251{0:q}");
OFFER("{{{{{1:#00\?}\303\251{:!0}");
OFFER("{}");
OFFER("\303\251\303\251{1:!#\?}\303\251");
OFFER("{:X\?}{0:<#5}}}{{");
OFFER("{:o}<}}{:#11}");
OFFER(":");
OFFER("{{}}}}");
OFFER("{}\?{{{{");
OFFER(".:q}<{}{{");
OFFER("{0");
OFFER("q}");
OFFER("\303\251{:\?}");
OFFER("{{{:!}\303\251{:5}{4:6}");
OFFER("{:>#2.6z}}}\?");
OFFER("{:\?}");
OFFER("{{{0:");
OFFER("{:^#7\?}<\303\251}}");
OFFER("\303\251<\303\251}}");
OFFER("");
OFFER("\303\251x: ");
OFFER("{0:<7X}}}");
OFFER("\303\251\303\251{:#}{:#\?}");
OFFER(":>\012");
OFFER("\303\251\303\251{{");
OFFER("}}}}{{<");
OFFER("\303\251");
OFFER("{{{{{0:!^9}\303\251}}");
OFFER("{:b}");
OFFER("\303\251:x: {:>8}{1:{^18q\?}");
OFFER("{:3}{5:x<}{1}{}{}");
OFFER("p{:8}x: {1:00}{:9}");
OFFER("}}");
OFFER("{}}}{:9x^}}");
OFFER("}");
OFFER("{{{1}{:^6b}{:}\303\251");
OFFER("{4:}{{0}}");
OFFER("0{0:8X\?}{:4.5}{{{{");
OFFER("a");
OFFER(":<");
OFFER("{:0.3b\?}a");
OFFER("{:.^3}{:>}{{{:}");
OFFER("{:{^4}\303\251\303\251{:#0}}}");
OFFER("\012\?");
OFFER("{:^1\?}{}{:#^19.5x}{:5X}\012");
OFFER("}}");
OFFER("{:!<#40}");
OFFER("}}");
OFFER("{{{{}}}}");
OFFER("q");
OFFER("a{}}}\303\251{{");
OFFER("{:#5}");
OFFER("{10:!>5}{{");
OFFER("{0:#}{0:X\?}}}}}{0:6z}");
OFFER("{1:.7\?}{:!0X}{1:#4294967309\?}");
OFFER("{0}{:x}{{\303\251{}");
OFFER("{1:14}{{");
OFFER("{:0\?}}}}}\303\251");
OFFER("}}");
OFFER("a");
OFFER("{{");
OFFER("{{{{{0:#o}x: {: >3.2b}");
OFFER("0{:}{{\303\251<");
OFFER("}}\012");
OFFER("{:#}{:#.6}}<}");
OFFER("{:#9\?}{{{:#o}p0:!.7}{:6}");
OFFER("\303\251{1:!>}{1}");
#endif
#ifdef SET_I
OFFER("{}}}");
OFFER("{1:!>6}\303\251");
OFFER(":}{}{");
OFFER(" ");
OFFER("}}{{{:.4");
OFFER("{1:\?^}0{0:>3}{:#8q}");
OFFER("");
OFFER("\?{:^<");
OFFER("}}a{1:8x\?}{:^37.7b}{}");
OFFER("{}\303\251");
OFFER("a<}}{{");
OFFER("\303\251");
OFFER("{1:0q}{:#4}{:^7}");
OFFER("{1: 0q}");
OFFER("{:.5}:{{{{{::<15.5x}");
OFFER("{:\?}}}\303\251{:!<#2}");
OFFER("\303\251 a{:}0");
OFFER("0");
OFFER("<{0}");
OFFER("");
OFFER("");
OFFER("{:0}{{{:.^3x}");
OFFER("}}{:^8}a");
OFFER("{}{0:>3b}{10:#x}\303\251{}");
OFFER("{0}{{\303\251a");
OFFER("\303\251}}}}");
OFFER("}}");
OFFER("}}{{{{ ");
OFFER("\303\251");
OFFER("q{\?}");
OFFER("\012\303\251");
OFFER("{}{3:#8.3}{0:!.5}{:^<6");
OFFER("{5}");
OFFER("ax: }}\303\251");
OFFER("}}{:}{}");
OFFER("}}{0:> 2}{:0>#1}");
OFFER("\303\251{:0\?}}}\012{0:^#8q}");
OFFER("}}{:04\?}{1:04294967297.2}{:10}\303\251");
OFFER("{1}");
OFFER("}}\303\251{:{<x}");
OFFER("{1:0o}{546704294967298:^1x\?}{0}{0:#11X}");
OFFER("{");
OFFER("{0:#}");
OFFER("{}{:^11.5}{{");
OFFER("{1:0\?}{0}0");
OFFER("}{{\012^{:#.7}{:}");
OFFER("}}");
OFFER("\?a{:0\?}{{}}");
OFFER("{:7}{:<<3\?}{}\?");
OFFER("\303\251{:!^1\?}}}{{\?");
OFFER("\303\251");
OFFER("\303\2510{0:^}");
OFFER("{:#\?}{:#}{:>7}");
OFFER("\303\251}}\303\251");
OFFER("{");
OFFER("{{{{{0}");
OFFER("}}}}");
OFFER("\303\251");
OFFER("\303\251a\303\251\303\251{:7.1\?}");
OFFER("{1:#b}");
OFFER("x: }}{{");
OFFER("{1}}}");
OFFER("}}");
OFFER("{{{:10}\303\251{:-<5b\?}");
OFFER("}");
OFFER("{{\303\251{0:!.0X}{{}}");
OFFER("}}");
OFFER("{{{:2}\303\251\303\251\303\251");
OFFER("{{}}");
OFFER("{:\?} ");
OFFER("{{{:4q\?}x: {1}");
OFFER("{}");
OFFER("{:0<#36\?}\303\251{:10}{}{0:#}");
OFFER("\303\251\303\251\303\251");
OFFER("}}{:#X\?}{^}}}");
OFFER("{{{:14}a\303\251{:<4b}");
OFFER("{1:0X}{0:q\?}\303\251{0:!\?}\012");
OFFER("\303\251\?{{\303\251");
OFFER("{{");
OFFER("{:}\303\251");
OFFER("\?");
OFFER("\?");
OFFER("{0}");
OFFER("}}{");
OFFER("{1:#.2}{:.3\?}a");
OFFER("{:#\?}{1:><}\?{1:<#4o}{{");
OFFER("{:#}{:3}x: {}");
OFFER("{:4}{:!}");
OFFER("}}");
OFFER("}}}}{7414904294967297:}");
OFFER("}}{:}\303\251{:#o}");
OFFER("<");
OFFER("}}{:9x}\303\251{{");
OFFER("\303\251{{{}{::^8.4\?}\303\251");
OFFER("a{:0}\303\251{:x>17.1\?}");
OFFER("x: ");
OFFER("}}{0:^9\?}}");
OFFER("{1:7}{:#<4b\?}{1::^2}{{");
OFFER("}}");
OFFER("{1:>p\?}");
OFFER("{:o}<{:0\?}{{");
OFFER("}}");
OFFER("\303\251 {{{0:^32X\?}");
OFFER("}}{0:.5}{:<7\?}\303\251{{");
OFFER("{{{{:\303\251{:x<3\?}");
OFFER("\303\251{:}");
OFFER("{}}}");
OFFER("{0:}{3:}\303\251");
OFFER("}}\303\251a");
OFFER("{");
OFFER("}}");
OFFER("\303\251");
OFFER("0}}{:!#0}\303\251}}");
OFFER("{:}{{\303\251}}");
OFFER("{:\?^4\?}");
OFFER("}}}}{1:#:0");
OFFER("{{>}");
OFFER("{}");
OFFER("\?\303\251{0}}}");
OFFER("{\?}}}{");
OFFER("{:-\?<2\?}{:!}{b}");
OFFER("}}");
OFFER("{0:12\?}{1:");
OFFER("{{{:q\?}{:3");
OFFER("\303\251{:11X\?}}}");
OFFER("{0:<^>1}{{");
OFFER("{{\303\251\303\251");
OFFER("\?{:#\?}{7:1}}}}}");
OFFER("{0:#13}}}{}");
OFFER("{}\303\251{:\?}{}");
OFFER("{} }}x: x: ");
OFFER("\303\251{}\012");
OFFER("{:!\?}");
OFFER("\?");
OFFER("}}{:7}\303\251");
OFFER("{:0}");
OFFER("{{\303\251a<");
OFFER(":8.6}{{");
OFFER("{:0}");
OFFER("{1}\303\251");
OFFER("\303\251}}{1:0o\?}{:X\?}{{");
OFFER("}}\303\251");
OFFER("x: \303\251\303\251{}");
OFFER("{0:#<34q\?}0:#.1\?}");
OFFER("{}}}");
OFFER("\303\251}}");
OFFER("\303\251{:!<9\?}");
OFFER("}}");
OFFER("\303\251");
OFFER("{}{1:1}{:#01.3o}\303\251");
OFFER(":}}");
OFFER("#{{{:<23}{:}}}");
OFFER("\303\251 {0:06.4}0");
OFFER("{0: <");
OFFER("{{{:^40}:\303\251");
OFFER("{12#}{{");
OFFER("\303\251\303\251{{{:#b\?}{:!.5}");
OFFER("{{\?{:0}");
OFFER("");
OFFER("\303\251\303\251{:13b}{0:<7\?}");
#endif
