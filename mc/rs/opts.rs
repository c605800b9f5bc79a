
/// Formats with every combination of formatter options.
pub fn all_options(d: &dyn Display, out: &mut Vec<(&'static str, String)>) {
    let (w, p) = (37usize, 3usize);
    let _ = (w, p);
    out.push(("", format!("{:}", d)));
    out.push(("w$", format!("{:w$}", d, w = w)));
    out.push((".p$", format!("{:.p$}", d, p = p)));
    out.push(("w$.p$", format!("{:w$.p$}", d, w = w, p = p)));
    out.push((".0", format!("{:.0}", d)));
    out.push(("1", format!("{:1}", d)));
    out.push(("0", format!("{:0}", d)));
    out.push(("0w$", format!("{:0w$}", d, w = w)));
    out.push(("0.p$", format!("{:0.p$}", d, p = p)));
    out.push(("0w$.p$", format!("{:0w$.p$}", d, w = w, p = p)));
    out.push(("0.0", format!("{:0.0}", d)));
    out.push(("01", format!("{:01}", d)));
    out.push(("#", format!("{:#}", d)));
    out.push(("#w$", format!("{:#w$}", d, w = w)));
    out.push(("#.p$", format!("{:#.p$}", d, p = p)));
    out.push(("#w$.p$", format!("{:#w$.p$}", d, w = w, p = p)));
    out.push(("#.0", format!("{:#.0}", d)));
    out.push(("#1", format!("{:#1}", d)));
    out.push(("#0", format!("{:#0}", d)));
    out.push(("#0w$", format!("{:#0w$}", d, w = w)));
    out.push(("#0.p$", format!("{:#0.p$}", d, p = p)));
    out.push(("#0w$.p$", format!("{:#0w$.p$}", d, w = w, p = p)));
    out.push(("#0.0", format!("{:#0.0}", d)));
    out.push(("#01", format!("{:#01}", d)));
    out.push(("+", format!("{:+}", d)));
    out.push(("+w$", format!("{:+w$}", d, w = w)));
    out.push(("+.p$", format!("{:+.p$}", d, p = p)));
    out.push(("+w$.p$", format!("{:+w$.p$}", d, w = w, p = p)));
    out.push(("+.0", format!("{:+.0}", d)));
    out.push(("+1", format!("{:+1}", d)));
    out.push(("+0", format!("{:+0}", d)));
    out.push(("+0w$", format!("{:+0w$}", d, w = w)));
    out.push(("+0.p$", format!("{:+0.p$}", d, p = p)));
    out.push(("+0w$.p$", format!("{:+0w$.p$}", d, w = w, p = p)));
    out.push(("+0.0", format!("{:+0.0}", d)));
    out.push(("+01", format!("{:+01}", d)));
    out.push(("+#", format!("{:+#}", d)));
    out.push(("+#w$", format!("{:+#w$}", d, w = w)));
    out.push(("+#.p$", format!("{:+#.p$}", d, p = p)));
    out.push(("+#w$.p$", format!("{:+#w$.p$}", d, w = w, p = p)));
    out.push(("+#.0", format!("{:+#.0}", d)));
    out.push(("+#1", format!("{:+#1}", d)));
    out.push(("+#0", format!("{:+#0}", d)));
    out.push(("+#0w$", format!("{:+#0w$}", d, w = w)));
    out.push(("+#0.p$", format!("{:+#0.p$}", d, p = p)));
    out.push(("+#0w$.p$", format!("{:+#0w$.p$}", d, w = w, p = p)));
    out.push(("+#0.0", format!("{:+#0.0}", d)));
    out.push(("+#01", format!("{:+#01}", d)));
    out.push(("-", format!("{:-}", d)));
    out.push(("-w$", format!("{:-w$}", d, w = w)));
    out.push(("-.p$", format!("{:-.p$}", d, p = p)));
    out.push(("-w$.p$", format!("{:-w$.p$}", d, w = w, p = p)));
    out.push(("-.0", format!("{:-.0}", d)));
    out.push(("-1", format!("{:-1}", d)));
    out.push(("-0", format!("{:-0}", d)));
    out.push(("-0w$", format!("{:-0w$}", d, w = w)));
    out.push(("-0.p$", format!("{:-0.p$}", d, p = p)));
    out.push(("-0w$.p$", format!("{:-0w$.p$}", d, w = w, p = p)));
    out.push(("-0.0", format!("{:-0.0}", d)));
    out.push(("-01", format!("{:-01}", d)));
    out.push(("-#", format!("{:-#}", d)));
    out.push(("-#w$", format!("{:-#w$}", d, w = w)));
    out.push(("-#.p$", format!("{:-#.p$}", d, p = p)));
    out.push(("-#w$.p$", format!("{:-#w$.p$}", d, w = w, p = p)));
    out.push(("-#.0", format!("{:-#.0}", d)));
    out.push(("-#1", format!("{:-#1}", d)));
    out.push(("-#0", format!("{:-#0}", d)));
    out.push(("-#0w$", format!("{:-#0w$}", d, w = w)));
    out.push(("-#0.p$", format!("{:-#0.p$}", d, p = p)));
    out.push(("-#0w$.p$", format!("{:-#0w$.p$}", d, w = w, p = p)));
    out.push(("-#0.0", format!("{:-#0.0}", d)));
    out.push(("-#01", format!("{:-#01}", d)));
    out.push(("<", format!("{:<}", d)));
    out.push(("<w$", format!("{:<w$}", d, w = w)));
    out.push(("<.p$", format!("{:<.p$}", d, p = p)));
    out.push(("<w$.p$", format!("{:<w$.p$}", d, w = w, p = p)));
    out.push(("<.0", format!("{:<.0}", d)));
    out.push(("<1", format!("{:<1}", d)));
    out.push(("<0", format!("{:<0}", d)));
    out.push(("<0w$", format!("{:<0w$}", d, w = w)));
    out.push(("<0.p$", format!("{:<0.p$}", d, p = p)));
    out.push(("<0w$.p$", format!("{:<0w$.p$}", d, w = w, p = p)));
    out.push(("<0.0", format!("{:<0.0}", d)));
    out.push(("<01", format!("{:<01}", d)));
    out.push(("<#", format!("{:<#}", d)));
    out.push(("<#w$", format!("{:<#w$}", d, w = w)));
    out.push(("<#.p$", format!("{:<#.p$}", d, p = p)));
    out.push(("<#w$.p$", format!("{:<#w$.p$}", d, w = w, p = p)));
    out.push(("<#.0", format!("{:<#.0}", d)));
    out.push(("<#1", format!("{:<#1}", d)));
    out.push(("<#0", format!("{:<#0}", d)));
    out.push(("<#0w$", format!("{:<#0w$}", d, w = w)));
    out.push(("<#0.p$", format!("{:<#0.p$}", d, p = p)));
    out.push(("<#0w$.p$", format!("{:<#0w$.p$}", d, w = w, p = p)));
    out.push(("<#0.0", format!("{:<#0.0}", d)));
    out.push(("<#01", format!("{:<#01}", d)));
    out.push(("<+", format!("{:<+}", d)));
    out.push(("<+w$", format!("{:<+w$}", d, w = w)));
    out.push(("<+.p$", format!("{:<+.p$}", d, p = p)));
    out.push(("<+w$.p$", format!("{:<+w$.p$}", d, w = w, p = p)));
    out.push(("<+.0", format!("{:<+.0}", d)));
    out.push(("<+1", format!("{:<+1}", d)));
    out.push(("<+0", format!("{:<+0}", d)));
    out.push(("<+0w$", format!("{:<+0w$}", d, w = w)));
    out.push(("<+0.p$", format!("{:<+0.p$}", d, p = p)));
    out.push(("<+0w$.p$", format!("{:<+0w$.p$}", d, w = w, p = p)));
    out.push(("<+0.0", format!("{:<+0.0}", d)));
    out.push(("<+01", format!("{:<+01}", d)));
    out.push(("<+#", format!("{:<+#}", d)));
    out.push(("<+#w$", format!("{:<+#w$}", d, w = w)));
    out.push(("<+#.p$", format!("{:<+#.p$}", d, p = p)));
    out.push(("<+#w$.p$", format!("{:<+#w$.p$}", d, w = w, p = p)));
    out.push(("<+#.0", format!("{:<+#.0}", d)));
    out.push(("<+#1", format!("{:<+#1}", d)));
    out.push(("<+#0", format!("{:<+#0}", d)));
    out.push(("<+#0w$", format!("{:<+#0w$}", d, w = w)));
    out.push(("<+#0.p$", format!("{:<+#0.p$}", d, p = p)));
    out.push(("<+#0w$.p$", format!("{:<+#0w$.p$}", d, w = w, p = p)));
    out.push(("<+#0.0", format!("{:<+#0.0}", d)));
    out.push(("<+#01", format!("{:<+#01}", d)));
    out.push(("<-", format!("{:<-}", d)));
    out.push(("<-w$", format!("{:<-w$}", d, w = w)));
    out.push(("<-.p$", format!("{:<-.p$}", d, p = p)));
    out.push(("<-w$.p$", format!("{:<-w$.p$}", d, w = w, p = p)));
    out.push(("<-.0", format!("{:<-.0}", d)));
    out.push(("<-1", format!("{:<-1}", d)));
    out.push(("<-0", format!("{:<-0}", d)));
    out.push(("<-0w$", format!("{:<-0w$}", d, w = w)));
    out.push(("<-0.p$", format!("{:<-0.p$}", d, p = p)));
    out.push(("<-0w$.p$", format!("{:<-0w$.p$}", d, w = w, p = p)));
    out.push(("<-0.0", format!("{:<-0.0}", d)));
    out.push(("<-01", format!("{:<-01}", d)));
    out.push(("<-#", format!("{:<-#}", d)));
    out.push(("<-#w$", format!("{:<-#w$}", d, w = w)));
    out.push(("<-#.p$", format!("{:<-#.p$}", d, p = p)));
    out.push(("<-#w$.p$", format!("{:<-#w$.p$}", d, w = w, p = p)));
    out.push(("<-#.0", format!("{:<-#.0}", d)));
    out.push(("<-#1", format!("{:<-#1}", d)));
    out.push(("<-#0", format!("{:<-#0}", d)));
    out.push(("<-#0w$", format!("{:<-#0w$}", d, w = w)));
    out.push(("<-#0.p$", format!("{:<-#0.p$}", d, p = p)));
    out.push(("<-#0w$.p$", format!("{:<-#0w$.p$}", d, w = w, p = p)));
    out.push(("<-#0.0", format!("{:<-#0.0}", d)));
    out.push(("<-#01", format!("{:<-#01}", d)));
    out.push(("^", format!("{:^}", d)));
    out.push(("^w$", format!("{:^w$}", d, w = w)));
    out.push(("^.p$", format!("{:^.p$}", d, p = p)));
    out.push(("^w$.p$", format!("{:^w$.p$}", d, w = w, p = p)));
    out.push(("^.0", format!("{:^.0}", d)));
    out.push(("^1", format!("{:^1}", d)));
    out.push(("^0", format!("{:^0}", d)));
    out.push(("^0w$", format!("{:^0w$}", d, w = w)));
    out.push(("^0.p$", format!("{:^0.p$}", d, p = p)));
    out.push(("^0w$.p$", format!("{:^0w$.p$}", d, w = w, p = p)));
    out.push(("^0.0", format!("{:^0.0}", d)));
    out.push(("^01", format!("{:^01}", d)));
    out.push(("^#", format!("{:^#}", d)));
    out.push(("^#w$", format!("{:^#w$}", d, w = w)));
    out.push(("^#.p$", format!("{:^#.p$}", d, p = p)));
    out.push(("^#w$.p$", format!("{:^#w$.p$}", d, w = w, p = p)));
    out.push(("^#.0", format!("{:^#.0}", d)));
    out.push(("^#1", format!("{:^#1}", d)));
    out.push(("^#0", format!("{:^#0}", d)));
    out.push(("^#0w$", format!("{:^#0w$}", d, w = w)));
    out.push(("^#0.p$", format!("{:^#0.p$}", d, p = p)));
    out.push(("^#0w$.p$", format!("{:^#0w$.p$}", d, w = w, p = p)));
    out.push(("^#0.0", format!("{:^#0.0}", d)));
    out.push(("^#01", format!("{:^#01}", d)));
    out.push(("^+", format!("{:^+}", d)));
    out.push(("^+w$", format!("{:^+w$}", d, w = w)));
    out.push(("^+.p$", format!("{:^+.p$}", d, p = p)));
    out.push(("^+w$.p$", format!("{:^+w$.p$}", d, w = w, p = p)));
    out.push(("^+.0", format!("{:^+.0}", d)));
    out.push(("^+1", format!("{:^+1}", d)));
    out.push(("^+0", format!("{:^+0}", d)));
    out.push(("^+0w$", format!("{:^+0w$}", d, w = w)));
    out.push(("^+0.p$", format!("{:^+0.p$}", d, p = p)));
    out.push(("^+0w$.p$", format!("{:^+0w$.p$}", d, w = w, p = p)));
    out.push(("^+0.0", format!("{:^+0.0}", d)));
    out.push(("^+01", format!("{:^+01}", d)));
    out.push(("^+#", format!("{:^+#}", d)));
    out.push(("^+#w$", format!("{:^+#w$}", d, w = w)));
    out.push(("^+#.p$", format!("{:^+#.p$}", d, p = p)));
    out.push(("^+#w$.p$", format!("{:^+#w$.p$}", d, w = w, p = p)));
    out.push(("^+#.0", format!("{:^+#.0}", d)));
    out.push(("^+#1", format!("{:^+#1}", d)));
    out.push(("^+#0", format!("{:^+#0}", d)));
    out.push(("^+#0w$", format!("{:^+#0w$}", d, w = w)));
    out.push(("^+#0.p$", format!("{:^+#0.p$}", d, p = p)));
    out.push(("^+#0w$.p$", format!("{:^+#0w$.p$}", d, w = w, p = p)));
    out.push(("^+#0.0", format!("{:^+#0.0}", d)));
    out.push(("^+#01", format!("{:^+#01}", d)));
    out.push(("^-", format!("{:^-}", d)));
    out.push(("^-w$", format!("{:^-w$}", d, w = w)));
    out.push(("^-.p$", format!("{:^-.p$}", d, p = p)));
    out.push(("^-w$.p$", format!("{:^-w$.p$}", d, w = w, p = p)));
    out.push(("^-.0", format!("{:^-.0}", d)));
    out.push(("^-1", format!("{:^-1}", d)));
    out.push(("^-0", format!("{:^-0}", d)));
    out.push(("^-0w$", format!("{:^-0w$}", d, w = w)));
    out.push(("^-0.p$", format!("{:^-0.p$}", d, p = p)));
    out.push(("^-0w$.p$", format!("{:^-0w$.p$}", d, w = w, p = p)));
    out.push(("^-0.0", format!("{:^-0.0}", d)));
    out.push(("^-01", format!("{:^-01}", d)));
    out.push(("^-#", format!("{:^-#}", d)));
    out.push(("^-#w$", format!("{:^-#w$}", d, w = w)));
    out.push(("^-#.p$", format!("{:^-#.p$}", d, p = p)));
    out.push(("^-#w$.p$", format!("{:^-#w$.p$}", d, w = w, p = p)));
    out.push(("^-#.0", format!("{:^-#.0}", d)));
    out.push(("^-#1", format!("{:^-#1}", d)));
    out.push(("^-#0", format!("{:^-#0}", d)));
    out.push(("^-#0w$", format!("{:^-#0w$}", d, w = w)));
    out.push(("^-#0.p$", format!("{:^-#0.p$}", d, p = p)));
    out.push(("^-#0w$.p$", format!("{:^-#0w$.p$}", d, w = w, p = p)));
    out.push(("^-#0.0", format!("{:^-#0.0}", d)));
    out.push(("^-#01", format!("{:^-#01}", d)));
    out.push((">", format!("{:>}", d)));
    out.push((">w$", format!("{:>w$}", d, w = w)));
    out.push((">.p$", format!("{:>.p$}", d, p = p)));
    out.push((">w$.p$", format!("{:>w$.p$}", d, w = w, p = p)));
    out.push((">.0", format!("{:>.0}", d)));
    out.push((">1", format!("{:>1}", d)));
    out.push((">0", format!("{:>0}", d)));
    out.push((">0w$", format!("{:>0w$}", d, w = w)));
    out.push((">0.p$", format!("{:>0.p$}", d, p = p)));
    out.push((">0w$.p$", format!("{:>0w$.p$}", d, w = w, p = p)));
    out.push((">0.0", format!("{:>0.0}", d)));
    out.push((">01", format!("{:>01}", d)));
    out.push((">#", format!("{:>#}", d)));
    out.push((">#w$", format!("{:>#w$}", d, w = w)));
    out.push((">#.p$", format!("{:>#.p$}", d, p = p)));
    out.push((">#w$.p$", format!("{:>#w$.p$}", d, w = w, p = p)));
    out.push((">#.0", format!("{:>#.0}", d)));
    out.push((">#1", format!("{:>#1}", d)));
    out.push((">#0", format!("{:>#0}", d)));
    out.push((">#0w$", format!("{:>#0w$}", d, w = w)));
    out.push((">#0.p$", format!("{:>#0.p$}", d, p = p)));
    out.push((">#0w$.p$", format!("{:>#0w$.p$}", d, w = w, p = p)));
    out.push((">#0.0", format!("{:>#0.0}", d)));
    out.push((">#01", format!("{:>#01}", d)));
    out.push((">+", format!("{:>+}", d)));
    out.push((">+w$", format!("{:>+w$}", d, w = w)));
    out.push((">+.p$", format!("{:>+.p$}", d, p = p)));
    out.push((">+w$.p$", format!("{:>+w$.p$}", d, w = w, p = p)));
    out.push((">+.0", format!("{:>+.0}", d)));
    out.push((">+1", format!("{:>+1}", d)));
    out.push((">+0", format!("{:>+0}", d)));
    out.push((">+0w$", format!("{:>+0w$}", d, w = w)));
    out.push((">+0.p$", format!("{:>+0.p$}", d, p = p)));
    out.push((">+0w$.p$", format!("{:>+0w$.p$}", d, w = w, p = p)));
    out.push((">+0.0", format!("{:>+0.0}", d)));
    out.push((">+01", format!("{:>+01}", d)));
    out.push((">+#", format!("{:>+#}", d)));
    out.push((">+#w$", format!("{:>+#w$}", d, w = w)));
    out.push((">+#.p$", format!("{:>+#.p$}", d, p = p)));
    out.push((">+#w$.p$", format!("{:>+#w$.p$}", d, w = w, p = p)));
    out.push((">+#.0", format!("{:>+#.0}", d)));
    out.push((">+#1", format!("{:>+#1}", d)));
    out.push((">+#0", format!("{:>+#0}", d)));
    out.push((">+#0w$", format!("{:>+#0w$}", d, w = w)));
    out.push((">+#0.p$", format!("{:>+#0.p$}", d, p = p)));
    out.push((">+#0w$.p$", format!("{:>+#0w$.p$}", d, w = w, p = p)));
    out.push((">+#0.0", format!("{:>+#0.0}", d)));
    out.push((">+#01", format!("{:>+#01}", d)));
    out.push((">-", format!("{:>-}", d)));
    out.push((">-w$", format!("{:>-w$}", d, w = w)));
    out.push((">-.p$", format!("{:>-.p$}", d, p = p)));
    out.push((">-w$.p$", format!("{:>-w$.p$}", d, w = w, p = p)));
    out.push((">-.0", format!("{:>-.0}", d)));
    out.push((">-1", format!("{:>-1}", d)));
    out.push((">-0", format!("{:>-0}", d)));
    out.push((">-0w$", format!("{:>-0w$}", d, w = w)));
    out.push((">-0.p$", format!("{:>-0.p$}", d, p = p)));
    out.push((">-0w$.p$", format!("{:>-0w$.p$}", d, w = w, p = p)));
    out.push((">-0.0", format!("{:>-0.0}", d)));
    out.push((">-01", format!("{:>-01}", d)));
    out.push((">-#", format!("{:>-#}", d)));
    out.push((">-#w$", format!("{:>-#w$}", d, w = w)));
    out.push((">-#.p$", format!("{:>-#.p$}", d, p = p)));
    out.push((">-#w$.p$", format!("{:>-#w$.p$}", d, w = w, p = p)));
    out.push((">-#.0", format!("{:>-#.0}", d)));
    out.push((">-#1", format!("{:>-#1}", d)));
    out.push((">-#0", format!("{:>-#0}", d)));
    out.push((">-#0w$", format!("{:>-#0w$}", d, w = w)));
    out.push((">-#0.p$", format!("{:>-#0.p$}", d, p = p)));
    out.push((">-#0w$.p$", format!("{:>-#0w$.p$}", d, w = w, p = p)));
    out.push((">-#0.0", format!("{:>-#0.0}", d)));
    out.push((">-#01", format!("{:>-#01}", d)));
    out.push(("*<", format!("{:*<}", d)));
    out.push(("*<w$", format!("{:*<w$}", d, w = w)));
    out.push(("*<.p$", format!("{:*<.p$}", d, p = p)));
    out.push(("*<w$.p$", format!("{:*<w$.p$}", d, w = w, p = p)));
    out.push(("*<.0", format!("{:*<.0}", d)));
    out.push(("*<1", format!("{:*<1}", d)));
    out.push(("*<0", format!("{:*<0}", d)));
    out.push(("*<0w$", format!("{:*<0w$}", d, w = w)));
    out.push(("*<0.p$", format!("{:*<0.p$}", d, p = p)));
    out.push(("*<0w$.p$", format!("{:*<0w$.p$}", d, w = w, p = p)));
    out.push(("*<0.0", format!("{:*<0.0}", d)));
    out.push(("*<01", format!("{:*<01}", d)));
    out.push(("*<#", format!("{:*<#}", d)));
    out.push(("*<#w$", format!("{:*<#w$}", d, w = w)));
    out.push(("*<#.p$", format!("{:*<#.p$}", d, p = p)));
    out.push(("*<#w$.p$", format!("{:*<#w$.p$}", d, w = w, p = p)));
    out.push(("*<#.0", format!("{:*<#.0}", d)));
    out.push(("*<#1", format!("{:*<#1}", d)));
    out.push(("*<#0", format!("{:*<#0}", d)));
    out.push(("*<#0w$", format!("{:*<#0w$}", d, w = w)));
    out.push(("*<#0.p$", format!("{:*<#0.p$}", d, p = p)));
    out.push(("*<#0w$.p$", format!("{:*<#0w$.p$}", d, w = w, p = p)));
    out.push(("*<#0.0", format!("{:*<#0.0}", d)));
    out.push(("*<#01", format!("{:*<#01}", d)));
    out.push(("*<+", format!("{:*<+}", d)));
    out.push(("*<+w$", format!("{:*<+w$}", d, w = w)));
    out.push(("*<+.p$", format!("{:*<+.p$}", d, p = p)));
    out.push(("*<+w$.p$", format!("{:*<+w$.p$}", d, w = w, p = p)));
    out.push(("*<+.0", format!("{:*<+.0}", d)));
    out.push(("*<+1", format!("{:*<+1}", d)));
    out.push(("*<+0", format!("{:*<+0}", d)));
    out.push(("*<+0w$", format!("{:*<+0w$}", d, w = w)));
    out.push(("*<+0.p$", format!("{:*<+0.p$}", d, p = p)));
    out.push(("*<+0w$.p$", format!("{:*<+0w$.p$}", d, w = w, p = p)));
    out.push(("*<+0.0", format!("{:*<+0.0}", d)));
    out.push(("*<+01", format!("{:*<+01}", d)));
    out.push(("*<+#", format!("{:*<+#}", d)));
    out.push(("*<+#w$", format!("{:*<+#w$}", d, w = w)));
    out.push(("*<+#.p$", format!("{:*<+#.p$}", d, p = p)));
    out.push(("*<+#w$.p$", format!("{:*<+#w$.p$}", d, w = w, p = p)));
    out.push(("*<+#.0", format!("{:*<+#.0}", d)));
    out.push(("*<+#1", format!("{:*<+#1}", d)));
    out.push(("*<+#0", format!("{:*<+#0}", d)));
    out.push(("*<+#0w$", format!("{:*<+#0w$}", d, w = w)));
    out.push(("*<+#0.p$", format!("{:*<+#0.p$}", d, p = p)));
    out.push(("*<+#0w$.p$", format!("{:*<+#0w$.p$}", d, w = w, p = p)));
    out.push(("*<+#0.0", format!("{:*<+#0.0}", d)));
    out.push(("*<+#01", format!("{:*<+#01}", d)));
    out.push(("*<-", format!("{:*<-}", d)));
    out.push(("*<-w$", format!("{:*<-w$}", d, w = w)));
    out.push(("*<-.p$", format!("{:*<-.p$}", d, p = p)));
    out.push(("*<-w$.p$", format!("{:*<-w$.p$}", d, w = w, p = p)));
    out.push(("*<-.0", format!("{:*<-.0}", d)));
    out.push(("*<-1", format!("{:*<-1}", d)));
    out.push(("*<-0", format!("{:*<-0}", d)));
    out.push(("*<-0w$", format!("{:*<-0w$}", d, w = w)));
    out.push(("*<-0.p$", format!("{:*<-0.p$}", d, p = p)));
    out.push(("*<-0w$.p$", format!("{:*<-0w$.p$}", d, w = w, p = p)));
    out.push(("*<-0.0", format!("{:*<-0.0}", d)));
    out.push(("*<-01", format!("{:*<-01}", d)));
    out.push(("*<-#", format!("{:*<-#}", d)));
    out.push(("*<-#w$", format!("{:*<-#w$}", d, w = w)));
    out.push(("*<-#.p$", format!("{:*<-#.p$}", d, p = p)));
    out.push(("*<-#w$.p$", format!("{:*<-#w$.p$}", d, w = w, p = p)));
    out.push(("*<-#.0", format!("{:*<-#.0}", d)));
    out.push(("*<-#1", format!("{:*<-#1}", d)));
    out.push(("*<-#0", format!("{:*<-#0}", d)));
    out.push(("*<-#0w$", format!("{:*<-#0w$}", d, w = w)));
    out.push(("*<-#0.p$", format!("{:*<-#0.p$}", d, p = p)));
    out.push(("*<-#0w$.p$", format!("{:*<-#0w$.p$}", d, w = w, p = p)));
    out.push(("*<-#0.0", format!("{:*<-#0.0}", d)));
    out.push(("*<-#01", format!("{:*<-#01}", d)));
    out.push(("e^", format!("{:\u{e9}^}", d)));
    out.push(("e^w$", format!("{:\u{e9}^w$}", d, w = w)));
    out.push(("e^.p$", format!("{:\u{e9}^.p$}", d, p = p)));
    out.push(("e^w$.p$", format!("{:\u{e9}^w$.p$}", d, w = w, p = p)));
    out.push(("e^.0", format!("{:\u{e9}^.0}", d)));
    out.push(("e^1", format!("{:\u{e9}^1}", d)));
    out.push(("e^0", format!("{:\u{e9}^0}", d)));
    out.push(("e^0w$", format!("{:\u{e9}^0w$}", d, w = w)));
    out.push(("e^0.p$", format!("{:\u{e9}^0.p$}", d, p = p)));
    out.push(("e^0w$.p$", format!("{:\u{e9}^0w$.p$}", d, w = w, p = p)));
    out.push(("e^0.0", format!("{:\u{e9}^0.0}", d)));
    out.push(("e^01", format!("{:\u{e9}^01}", d)));
    out.push(("e^#", format!("{:\u{e9}^#}", d)));
    out.push(("e^#w$", format!("{:\u{e9}^#w$}", d, w = w)));
    out.push(("e^#.p$", format!("{:\u{e9}^#.p$}", d, p = p)));
    out.push(("e^#w$.p$", format!("{:\u{e9}^#w$.p$}", d, w = w, p = p)));
    out.push(("e^#.0", format!("{:\u{e9}^#.0}", d)));
    out.push(("e^#1", format!("{:\u{e9}^#1}", d)));
    out.push(("e^#0", format!("{:\u{e9}^#0}", d)));
    out.push(("e^#0w$", format!("{:\u{e9}^#0w$}", d, w = w)));
    out.push(("e^#0.p$", format!("{:\u{e9}^#0.p$}", d, p = p)));
    out.push(("e^#0w$.p$", format!("{:\u{e9}^#0w$.p$}", d, w = w, p = p)));
    out.push(("e^#0.0", format!("{:\u{e9}^#0.0}", d)));
    out.push(("e^#01", format!("{:\u{e9}^#01}", d)));
    out.push(("e^+", format!("{:\u{e9}^+}", d)));
    out.push(("e^+w$", format!("{:\u{e9}^+w$}", d, w = w)));
    out.push(("e^+.p$", format!("{:\u{e9}^+.p$}", d, p = p)));
    out.push(("e^+w$.p$", format!("{:\u{e9}^+w$.p$}", d, w = w, p = p)));
    out.push(("e^+.0", format!("{:\u{e9}^+.0}", d)));
    out.push(("e^+1", format!("{:\u{e9}^+1}", d)));
    out.push(("e^+0", format!("{:\u{e9}^+0}", d)));
    out.push(("e^+0w$", format!("{:\u{e9}^+0w$}", d, w = w)));
    out.push(("e^+0.p$", format!("{:\u{e9}^+0.p$}", d, p = p)));
    out.push(("e^+0w$.p$", format!("{:\u{e9}^+0w$.p$}", d, w = w, p = p)));
    out.push(("e^+0.0", format!("{:\u{e9}^+0.0}", d)));
    out.push(("e^+01", format!("{:\u{e9}^+01}", d)));
    out.push(("e^+#", format!("{:\u{e9}^+#}", d)));
    out.push(("e^+#w$", format!("{:\u{e9}^+#w$}", d, w = w)));
    out.push(("e^+#.p$", format!("{:\u{e9}^+#.p$}", d, p = p)));
    out.push(("e^+#w$.p$", format!("{:\u{e9}^+#w$.p$}", d, w = w, p = p)));
    out.push(("e^+#.0", format!("{:\u{e9}^+#.0}", d)));
    out.push(("e^+#1", format!("{:\u{e9}^+#1}", d)));
    out.push(("e^+#0", format!("{:\u{e9}^+#0}", d)));
    out.push(("e^+#0w$", format!("{:\u{e9}^+#0w$}", d, w = w)));
    out.push(("e^+#0.p$", format!("{:\u{e9}^+#0.p$}", d, p = p)));
    out.push(("e^+#0w$.p$", format!("{:\u{e9}^+#0w$.p$}", d, w = w, p = p)));
    out.push(("e^+#0.0", format!("{:\u{e9}^+#0.0}", d)));
    out.push(("e^+#01", format!("{:\u{e9}^+#01}", d)));
    out.push(("e^-", format!("{:\u{e9}^-}", d)));
    out.push(("e^-w$", format!("{:\u{e9}^-w$}", d, w = w)));
    out.push(("e^-.p$", format!("{:\u{e9}^-.p$}", d, p = p)));
    out.push(("e^-w$.p$", format!("{:\u{e9}^-w$.p$}", d, w = w, p = p)));
    out.push(("e^-.0", format!("{:\u{e9}^-.0}", d)));
    out.push(("e^-1", format!("{:\u{e9}^-1}", d)));
    out.push(("e^-0", format!("{:\u{e9}^-0}", d)));
    out.push(("e^-0w$", format!("{:\u{e9}^-0w$}", d, w = w)));
    out.push(("e^-0.p$", format!("{:\u{e9}^-0.p$}", d, p = p)));
    out.push(("e^-0w$.p$", format!("{:\u{e9}^-0w$.p$}", d, w = w, p = p)));
    out.push(("e^-0.0", format!("{:\u{e9}^-0.0}", d)));
    out.push(("e^-01", format!("{:\u{e9}^-01}", d)));
    out.push(("e^-#", format!("{:\u{e9}^-#}", d)));
    out.push(("e^-#w$", format!("{:\u{e9}^-#w$}", d, w = w)));
    out.push(("e^-#.p$", format!("{:\u{e9}^-#.p$}", d, p = p)));
    out.push(("e^-#w$.p$", format!("{:\u{e9}^-#w$.p$}", d, w = w, p = p)));
    out.push(("e^-#.0", format!("{:\u{e9}^-#.0}", d)));
    out.push(("e^-#1", format!("{:\u{e9}^-#1}", d)));
    out.push(("e^-#0", format!("{:\u{e9}^-#0}", d)));
    out.push(("e^-#0w$", format!("{:\u{e9}^-#0w$}", d, w = w)));
    out.push(("e^-#0.p$", format!("{:\u{e9}^-#0.p$}", d, p = p)));
    out.push(("e^-#0w$.p$", format!("{:\u{e9}^-#0w$.p$}", d, w = w, p = p)));
    out.push(("e^-#0.0", format!("{:\u{e9}^-#0.0}", d)));
    out.push(("e^-#01", format!("{:\u{e9}^-#01}", d)));
    out.push(("0>", format!("{:0>}", d)));
    out.push(("0>w$", format!("{:0>w$}", d, w = w)));
    out.push(("0>.p$", format!("{:0>.p$}", d, p = p)));
    out.push(("0>w$.p$", format!("{:0>w$.p$}", d, w = w, p = p)));
    out.push(("0>.0", format!("{:0>.0}", d)));
    out.push(("0>1", format!("{:0>1}", d)));
    out.push(("0>0", format!("{:0>0}", d)));
    out.push(("0>0w$", format!("{:0>0w$}", d, w = w)));
    out.push(("0>0.p$", format!("{:0>0.p$}", d, p = p)));
    out.push(("0>0w$.p$", format!("{:0>0w$.p$}", d, w = w, p = p)));
    out.push(("0>0.0", format!("{:0>0.0}", d)));
    out.push(("0>01", format!("{:0>01}", d)));
    out.push(("0>#", format!("{:0>#}", d)));
    out.push(("0>#w$", format!("{:0>#w$}", d, w = w)));
    out.push(("0>#.p$", format!("{:0>#.p$}", d, p = p)));
    out.push(("0>#w$.p$", format!("{:0>#w$.p$}", d, w = w, p = p)));
    out.push(("0>#.0", format!("{:0>#.0}", d)));
    out.push(("0>#1", format!("{:0>#1}", d)));
    out.push(("0>#0", format!("{:0>#0}", d)));
    out.push(("0>#0w$", format!("{:0>#0w$}", d, w = w)));
    out.push(("0>#0.p$", format!("{:0>#0.p$}", d, p = p)));
    out.push(("0>#0w$.p$", format!("{:0>#0w$.p$}", d, w = w, p = p)));
    out.push(("0>#0.0", format!("{:0>#0.0}", d)));
    out.push(("0>#01", format!("{:0>#01}", d)));
    out.push(("0>+", format!("{:0>+}", d)));
    out.push(("0>+w$", format!("{:0>+w$}", d, w = w)));
    out.push(("0>+.p$", format!("{:0>+.p$}", d, p = p)));
    out.push(("0>+w$.p$", format!("{:0>+w$.p$}", d, w = w, p = p)));
    out.push(("0>+.0", format!("{:0>+.0}", d)));
    out.push(("0>+1", format!("{:0>+1}", d)));
    out.push(("0>+0", format!("{:0>+0}", d)));
    out.push(("0>+0w$", format!("{:0>+0w$}", d, w = w)));
    out.push(("0>+0.p$", format!("{:0>+0.p$}", d, p = p)));
    out.push(("0>+0w$.p$", format!("{:0>+0w$.p$}", d, w = w, p = p)));
    out.push(("0>+0.0", format!("{:0>+0.0}", d)));
    out.push(("0>+01", format!("{:0>+01}", d)));
    out.push(("0>+#", format!("{:0>+#}", d)));
    out.push(("0>+#w$", format!("{:0>+#w$}", d, w = w)));
    out.push(("0>+#.p$", format!("{:0>+#.p$}", d, p = p)));
    out.push(("0>+#w$.p$", format!("{:0>+#w$.p$}", d, w = w, p = p)));
    out.push(("0>+#.0", format!("{:0>+#.0}", d)));
    out.push(("0>+#1", format!("{:0>+#1}", d)));
    out.push(("0>+#0", format!("{:0>+#0}", d)));
    out.push(("0>+#0w$", format!("{:0>+#0w$}", d, w = w)));
    out.push(("0>+#0.p$", format!("{:0>+#0.p$}", d, p = p)));
    out.push(("0>+#0w$.p$", format!("{:0>+#0w$.p$}", d, w = w, p = p)));
    out.push(("0>+#0.0", format!("{:0>+#0.0}", d)));
    out.push(("0>+#01", format!("{:0>+#01}", d)));
    out.push(("0>-", format!("{:0>-}", d)));
    out.push(("0>-w$", format!("{:0>-w$}", d, w = w)));
    out.push(("0>-.p$", format!("{:0>-.p$}", d, p = p)));
    out.push(("0>-w$.p$", format!("{:0>-w$.p$}", d, w = w, p = p)));
    out.push(("0>-.0", format!("{:0>-.0}", d)));
    out.push(("0>-1", format!("{:0>-1}", d)));
    out.push(("0>-0", format!("{:0>-0}", d)));
    out.push(("0>-0w$", format!("{:0>-0w$}", d, w = w)));
    out.push(("0>-0.p$", format!("{:0>-0.p$}", d, p = p)));
    out.push(("0>-0w$.p$", format!("{:0>-0w$.p$}", d, w = w, p = p)));
    out.push(("0>-0.0", format!("{:0>-0.0}", d)));
    out.push(("0>-01", format!("{:0>-01}", d)));
    out.push(("0>-#", format!("{:0>-#}", d)));
    out.push(("0>-#w$", format!("{:0>-#w$}", d, w = w)));
    out.push(("0>-#.p$", format!("{:0>-#.p$}", d, p = p)));
    out.push(("0>-#w$.p$", format!("{:0>-#w$.p$}", d, w = w, p = p)));
    out.push(("0>-#.0", format!("{:0>-#.0}", d)));
    out.push(("0>-#1", format!("{:0>-#1}", d)));
    out.push(("0>-#0", format!("{:0>-#0}", d)));
    out.push(("0>-#0w$", format!("{:0>-#0w$}", d, w = w)));
    out.push(("0>-#0.p$", format!("{:0>-#0.p$}", d, p = p)));
    out.push(("0>-#0w$.p$", format!("{:0>-#0w$.p$}", d, w = w, p = p)));
    out.push(("0>-#0.0", format!("{:0>-#0.0}", d)));
    out.push(("0>-#01", format!("{:0>-#01}", d)));
}
