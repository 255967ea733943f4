//! C28: signed commands. The signed input against an independent layout; a command verifies for
//! its payload, signer, signature and network and for no other; a block verifies when all of its
//! commands do.
use crate::core::*;
use crate::gen;
use crate::hash::{big_fp, first_diff, fp_bytes, Inp, Leaves};
use ark_ff::{BigInteger256, PrimeField};
use mina_rs_base::types::*;
use mina_rs_base::user_commands::signed_command::builder::SignedTransferCommandBuilder;
use mina_rs_base::user_commands::signed_command::StakeDelegation;
use mina_rs_base::verifiable::Verifiable;
use mina_serialization_types::staged_ledger_diff as wire;
use mina_serialization_types::v1::ExternalTransitionV1;
use proof_systems::mina_hasher::Hashable;
use proof_systems::mina_signer::{create_legacy, CompressedPubKey, Keypair, NetworkId, Signature, Signer};

pub fn facets() -> Vec<Facet> {
    vec![
        Facet { prop: "C28", name: "input", quick: 150_000, thorough: 6_000_000, f: input, rule: "a payment or delegation payload; its signed input and domain strings against the layout; every case non-trivial" },
        Facet { prop: "C28", name: "verify", quick: 15_000, thorough: 100_000, f: verify, rule: "a signed payload, then the command with its network, payload, signer or signature changed; every case non-trivial" },
        Facet { prop: "C28", name: "signer", quick: 3_000, thorough: 150_000, f: signer, rule: "a command whose signer is any key, curve point or not; non-trivial: not a curve point" },
        Facet { prop: "C28", name: "block", quick: 8_000, thorough: 40_000, f: block, rule: "a block with 0-3 commands in each of its one or two diffs, some of them broken; non-trivial: at least one command" },
        Facet { prop: "C28", name: "builder", quick: 20_000, thorough: 800_000, f: builder, rule: "a transfer built with a sequence of setters; non-trivial: at least one setter" },
    ]
}

pub(crate) fn key(s: &mut Src) -> Keypair {
    loop {
        let b = match s.below(6) {
            0 => {
                let mut x = vec![0u8; 32];
                x[31] = s.byte();
                x
            }
            _ => s.bytes(32),
        };
        let mut b = b;
        b[0] &= 0x3f;
        if b.iter().all(|x| *x == 0) {
            b[31] = 1;
        }
        if let Ok(k) = Keypair::from_hex(&hex_full(&b)) {
            return k;
        }
    }
}

pub(crate) fn payload(l: &mut Leaves) -> (SignedCommandPayload, Inp) {
    let (fee, fee_token, fpk, nonce, until) = (l.u64(), l.u64(), l.pk(), l.u32(), l.u32());
    let n = l.len(35);
    let mut memo = l.bytes();
    memo.extend(l.bytes());
    memo.truncate(if n == 35 { 34 } else { n });
    let (src, rcv, token, amount) = (l.pk(), l.pk(), l.u64(), l.u64());
    let delegation = l.b();
    let mut m = Inp::default();
    m.f(fpk.x).f(src.x).f(rcv.x).u64(fee).u64(fee_token).b(fpk.is_odd).u32(nonce).u32(until).bytes(&memo);
    m.b(false).b(false).b(delegation).b(src.is_odd).b(rcv.is_odd);
    if delegation {
        m.u64(1).u64(0).b(false);
    } else {
        m.u64(token).u64(amount).b(false);
    }
    let common = SignedCommandPayloadCommon { fee: Amount(fee), fee_token: TokenId(fee_token), fee_payer_pk: fpk, nonce: AccountNonce(nonce), valid_until: GlobalSlotNumber(until), memo: SignedCommandMemo(memo) };
    let body = if delegation {
        SignedCommandPayloadBody::StakeDelegation(StakeDelegation::SetDelegate { delegator: src, new_delegate: rcv })
    } else {
        SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: src, receiver_pk: rcv, token_id: TokenId(token), amount: Amount(amount) })
    };
    (SignedCommandPayload { common, body }, m)
}

fn input(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = Leaves::gen(s, 18);
    let (p, m) = payload(&mut l);
    ctx.case(hash_of(&l.v), true);
    ctx.label(if matches!(p.body, SignedCommandPayloadBody::PaymentPayload(_)) { "payment" } else { "delegation" });
    let f = guard(|| p.to_roinput())?.to_fields();
    ensure!(f == m.legacy(), "the signed input differs from its layout: {} for {p:?}", first_diff(&f, &m.legacy()));
    for (n, d) in [(NetworkId::MAINNET, "MinaSignatureMainnet"), (NetworkId::TESTNET, "CodaSignature")] {
        let got = SignedCommandPayload::domain_string(n);
        ensure!(got.as_deref() == Some(d), "the signing domain is {got:?} instead of {d}");
    }
    ctx.sample(|| format!("{p:?}"));
    Ok(())
}

pub(crate) fn net(main: bool) -> NetworkId {
    if main {
        NetworkId::MAINNET
    } else {
        NetworkId::TESTNET
    }
}
fn bump(b: BigInteger256, by: u64) -> BigInteger256 {
    let mut b = b;
    b.0[0] ^= by.max(1);
    b
}

fn verify(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kp = key(s);
    let leaves = Leaves::gen(s, 18);
    let mut l = leaves.clone();
    let (p, m) = payload(&mut l);
    let main = s.bool();
    ctx.case(hash_of(&(&leaves.v, main, kp.to_hex())), true);
    let cmd = guard(|| if main { p.clone().into_signed_command(kp.clone(), net(main)) } else { SignedCommand::from_payload(p.clone(), kp.clone(), net(main)) })?;
    ensure!(cmd.payload == p, "signing changed the payload");
    ensure!(cmd.signer == kp.public.into_compressed(), "signing names another signer");
    let mut own = create_legacy::<SignedCommandPayload>(net(main));
    let mut other = create_legacy::<SignedCommandPayload>(net(!main));
    ensure!(own.verify(&cmd.signature, &kp.public, &p), "the signature does not hold under the signer itself");
    ensure!(guard(|| cmd.verify(&mut own))?, "a command signed on its network does not verify: {cmd:?}");
    ensure!(!guard(|| cmd.verify(&mut other))?, "a command verifies on the other network: {cmd:?}");
    let user = UserCommand::SignedCommand(cmd.clone());
    ensure!(guard(|| user.verify(&mut own))?, "the user command does not verify");
    // something changed
    let mut c = cmd.clone();
    let what = match s.below(6) {
        0 | 1 => {
            let mut l2 = leaves.mutate(s, l.at);
            let (q, m2) = payload(&mut l2);
            if m2.legacy() == m.legacy() {
                return Ok(());
            }
            c.payload = q;
            "payload"
        }
        2 => {
            c.signer.is_odd = !c.signer.is_odd;
            "parity of the signer"
        }
        3 => {
            c.signer = key(s).public.into_compressed();
            if c.signer == cmd.signer {
                return Ok(());
            }
            "signer"
        }
        4 => {
            let by = s.u64();
            match PrimeField::from_repr(bump(cmd.signature.rx.into_repr(), by)) {
                Some(rx) => c.signature = Signature::new(rx, cmd.signature.s),
                None => return Ok(()),
            }
            "signature"
        }
        _ => {
            let by = s.u64();
            match PrimeField::from_repr(bump(cmd.signature.s.into_repr(), by)) {
                Some(x) => c.signature = Signature::new(cmd.signature.rx, x),
                None => return Ok(()),
            }
            "signature"
        }
    };
    ctx.label(what);
    ensure!(!guard(|| c.verify(&mut own))?, "a command verifies after a change of the {what}: {c:?}, was {cmd:?}");
    ensure!(!guard(|| UserCommand::SignedCommand(c.clone()).verify(&mut own))?, "a user command verifies after a change of the {what}");
    ctx.sample(|| format!("{what} changed; {:?}", p.common));
    Ok(())
}

fn signer(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kp = key(s);
    let mut l = Leaves::gen(s, 20);
    let (p, _) = payload(&mut l);
    let x = fp_bytes(&l.h());
    let mut cmd = SignedCommand::from_payload(p, kp.clone(), NetworkId::TESTNET);
    cmd.signer = CompressedPubKey { x, is_odd: s.bool() };
    let on_curve = proof_systems::mina_signer::PubKey::from_address(&cmd.signer.into_address()).is_ok();
    ctx.case(hash_of(&l.v), !on_curve);
    ctx.label(if on_curve { "another key" } else { "not a curve point" });
    let mut own = create_legacy::<SignedCommandPayload>(NetworkId::TESTNET);
    let r = guard(|| cmd.verify(&mut own)).map_err(|e| Fail(format!("verifying a command whose signer has x = {:x}: {}", big_fp(&x), e.0)))?;
    ensure!(!r || cmd.signer == kp.public.into_compressed(), "a command verifies under a signer with x = {:x}", big_fp(&x));
    ctx.sample(|| format!("x = {:x}, curve point: {on_curve}", big_fp(&x)));
    Ok(())
}

/// The two diffs of a block, commands signed for the network; the command at `broken_at` does not
/// verify. (broken, applied) of every command.
pub(crate) fn diffs(s: &mut Src, main: bool, broken_at: u64) -> (StagedLedgerPreDiff, Option<StagedLedgerPreDiff>, Vec<(bool, bool)>) {
    let mut shape = vec![];
    let mut commands = |s: &mut Src, tmpl: Vec<UserCommandWithStatus>| -> Vec<UserCommandWithStatus> {
        tmpl.into_iter()
            .map(|mut u| {
                let kp = key(s);
                let mut l = Leaves::gen(s, 18);
                let (p, _) = payload(&mut l);
                let mut c = p.into_signed_command(kp, net(main));
                let broken = shape.len() as u64 == broken_at;
                if broken {
                    match s.below(3) {
                        0 => c.payload.common.nonce.0 ^= 1 << s.below(32),
                        1 => c.signer.is_odd = !c.signer.is_odd,
                        _ => c = c.payload.clone().into_signed_command(key(s), net(!main)),
                    }
                }
                shape.push((broken, matches!(u.status, TransactionStatus::Applied(..))));
                u.data = UserCommand::SignedCommand(c);
                u
            })
            .collect()
    };
    let diff: StagedLedgerDiff = {
        let w: mina_serialization_types::v1::StagedLedgerDiffV1 = gen::value(s);
        w.into()
    };
    let mut two = diff.diff.diff_two().clone();
    let mut one = diff.diff.diff_one().clone();
    two.commands = commands(s, two.commands);
    if let Some(o) = &mut one {
        o.commands = commands(s, o.commands.clone());
    }
    (two, one, shape)
}
pub(crate) fn staged(two: &StagedLedgerPreDiff, one: &Option<StagedLedgerPreDiff>) -> StagedLedgerDiff {
    let tuple: StagedLedgerDiffTuple = wire::StagedLedgerDiffTuple(
        {
            let t: wire::StagedLedgerPreDiff = two.clone().into();
            t.into()
        },
        one.clone().map(|o| {
            let t: wire::StagedLedgerPreDiff = o.into();
            t.into()
        }),
    )
    .into();
    StagedLedgerDiff { diff: tuple }
}

fn block(s: &mut Src, ctx: &mut Ctx) -> Res {
    let main = s.bool();
    // mostly good commands, so that one broken command decides
    let broken_at = if s.chance(2, 3) { s.below(6) } else { 99 };
    let (two, one, shape) = diffs(s, main, broken_at);
    let good = !shape.iter().any(|x| x.0);
    let has_one = one.is_some();
    let diff = staged(&two, &one);
    ctx.case(hash_of(&(&shape, has_one, s.u64())), !shape.is_empty());
    ctx.label(if good { "all good" } else { "one broken" });
    ensure!(diff.diff.diff_two() == &two && diff.diff.diff_one() == &one, "the diffs of a staged ledger diff are not the ones put in");
    let mut ctx_s = create_legacy::<SignedCommandPayload>(net(main));
    let r = guard(|| diff.verify(&mut ctx_s))?;
    ensure!(r == good, "a staged ledger diff {} although its commands are {:?} (broken, applied), second diff: {has_one}", if r { "verifies" } else { "does not verify" }, shape);
    let w: ExternalTransitionV1 = gen::value_with(s, 1, false, false);
    let mut b: ExternalTransition = w.into();
    b.staged_ledger_diff = diff;
    let r = guard(|| b.verify(&mut ctx_s))?;
    ensure!(r == good, "a block {} although its commands are {:?} (broken, applied), second diff: {has_one}", if r { "verifies" } else { "does not verify" }, shape);
    ctx.sample(|| format!("(broken, applied) {shape:?}, second diff: {has_one}"));
    Ok(())
}

fn builder(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut l = Leaves::gen(s, 16);
    let (from, to, amount, fee, nonce) = (l.pk(), l.pk(), l.u64(), l.u64(), l.u32());
    let mut b = SignedTransferCommandBuilder::new(from.clone(), to.clone(), amount, fee, nonce);
    let (mut tok, mut ftok, mut payer, mut memo, mut until) = (1, 1, from.clone(), SignedCommandMemo::default(), u32::MAX);
    let n = s.range(0, 6);
    let mut trace = vec![];
    for _ in 0..n {
        let k = s.below(5);
        trace.push(k);
        match k {
            0 => {
                tok = s.wide() as u64;
                b = b.transfer_token(tok);
            }
            1 => {
                ftok = s.wide() as u64;
                b = b.fee_token(ftok);
            }
            2 => {
                payer = CompressedPubKey { x: fp_bytes(&Leaves::gen(s, 1).h()), is_odd: s.bool() };
                b = b.fee_payer(payer.clone());
            }
            3 => {
                let n = s.below(35) as usize;
                memo = SignedCommandMemo(s.bytes(n));
                b = b.memo(memo.clone());
            }
            _ => {
                until = s.wide() as u32;
                b = b.valid_until(until);
            }
        }
    }
    ctx.case(hash_of(&(&l.v, &trace)), n > 0);
    let p = b.build();
    let want = SignedCommandPayload {
        common: SignedCommandPayloadCommon { fee: Amount(fee), fee_token: TokenId(ftok), fee_payer_pk: payer, nonce: AccountNonce(nonce), valid_until: GlobalSlotNumber(until), memo },
        body: SignedCommandPayloadBody::PaymentPayload(PaymentPayload { source_pk: from, receiver_pk: to, token_id: TokenId(tok), amount: Amount(amount) }),
    };
    ensure!(p == want, "the transfer built after setters {trace:?} is {p:?} instead of {want:?}");
    ctx.sample(|| format!("setters {trace:?}"));
    Ok(())
}
