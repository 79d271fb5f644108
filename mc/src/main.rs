//! Binds the checker to the code under test: everything here goes through phoenix's public entry points.
use borsh::BorshDeserialize;
use mccore::world::*;
use phoenix::program::{
    cancel_multiple_orders::{CancelMultipleOrdersByIdParams, CancelUpToParams},
    deposit::DepositParams,
    dispatch_market::{get_market_size, load_with_dispatch},
    initialize::InitializeParams,
    instruction_builders::*,
    new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior, MultipleOrderPacket},
    reduce_order::ReduceOrderParams,
    status::{MarketStatus, SeatApprovalStatus},
    withdraw::WithdrawParams,
    MarketHeader, MarketSizeParams,
};
use phoenix::quantities::WrapperU64;
use phoenix::state::{OrderPacket, Side as PSide};
use solana_program::{instruction::Instruction, pubkey::Pubkey};

fn size(b: u64, a: u64, s: u64) -> Option<usize> {
    get_market_size(&MarketSizeParams { bids_size: b, asks_size: a, num_seats: s })
        .ok()
        .map(|x| x + std::mem::size_of::<MarketHeader>())
}

fn params(d: &[u8]) -> MarketSizeParams {
    MarketSizeParams { bids_size: rd64(d, off::SIZES), asks_size: rd64(d, off::SIZES + 8), num_seats: rd64(d, off::SIZES + 16) }
}

fn read(d: &[u8]) -> Option<RawMarket> {
    let sp = params(d);
    let w = load_with_dispatch(&sp, &d[std::mem::size_of::<MarketHeader>()..]).ok()?;
    let m = w.inner;
    let mut r = RawMarket {
        oseq: m.get_sequence_number(),
        collected: m.get_collected_fee_amount().as_u64(),
        uncollected: m.get_uncollected_fee_amount().as_u64(),
        fee_bps: m.get_taker_fee_bps(),
        tick: m.get_tick_size().as_u64(),
        blpu: m.get_base_lots_per_base_unit().as_u64(),
        ..Default::default()
    };
    for (k, t) in m.get_registered_traders().iter() {
        r.traders.push((*k, [t.quote_lots_locked.as_u64(), t.quote_lots_free.as_u64(), t.base_lots_locked.as_u64(), t.base_lots_free.as_u64()]));
    }
    let n = sp.num_seats as u32;
    for (s, v) in [(PSide::Bid, &mut r.bids), (PSide::Ask, &mut r.asks)] {
        for (id, o) in m.get_book(s).iter() {
            let i = o.trader_index as u32;
            let who = if i >= 1 && i <= n { m.get_trader_id_from_index(i) } else { Pubkey::default() };
            v.push((
                id.price_in_ticks.as_u64(),
                id.order_sequence_number,
                who,
                o.num_base_lots.as_u64(),
                o.last_valid_slot,
                o.last_valid_unix_timestamp_in_seconds,
            ));
        }
    }
    Some(r)
}

fn ladder(d: &[u8], levels: u64, slot: Option<u64>, ts: Option<u64>) -> Option<LadderOut> {
    let sp = params(d);
    let w = load_with_dispatch(&sp, &d[std::mem::size_of::<MarketHeader>()..]).ok()?;
    let m = w.inner;
    let l = m.get_ladder_with_expiration(levels, slot, ts);
    let t = m.get_typed_ladder_with_expiration(levels, slot, ts);
    let cv = |v: &Vec<phoenix::state::markets::LadderOrder>| v.iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect::<Vec<_>>();
    let ct = |v: &Vec<phoenix::state::markets::TypedLadderOrder>| v.iter().map(|x| (x.price_in_ticks.as_u64(), x.size_in_base_lots.as_u64())).collect::<Vec<_>>();
    let a = LadderOut { bids: cv(&l.bids), asks: cv(&l.asks) };
    if a != (LadderOut { bids: ct(&t.bids), asks: ct(&t.asks) }) {
        return None;
    }
    if slot.is_none() && ts.is_none() {
        let l = m.get_ladder(levels);
        let t = m.get_typed_ladder(levels);
        if a != (LadderOut { bids: cv(&l.bids), asks: cv(&l.asks) }) || a != (LadderOut { bids: ct(&t.bids), asks: ct(&t.asks) }) {
            return None;
        }
    }
    Some(a)
}

/// The secondary accessors must agree with the listings.
fn views(d: &[u8]) -> Vec<String> {
    let mut out = vec![];
    let sp = params(d);
    let w = match load_with_dispatch(&sp, &d[std::mem::size_of::<MarketHeader>()..]) {
        Ok(w) => w,
        Err(_) => return vec!["market cannot be loaded".into()],
    };
    let m = w.inner;
    let mut n = 0;
    for (k, t) in m.get_registered_traders().iter() {
        n += 1;
        match m.get_trader_state(k) {
            Some(x) if x == t => {}
            _ => out.push(format!("get_trader_state disagrees with the listing for {}", k)),
        }
        match m.get_trader_index(k) {
            Some(i) => {
                if m.get_trader_id_from_index(i) != *k {
                    out.push(format!("trader index {} maps back to another trader", i));
                }
                if m.get_trader_state_from_index(i) != t {
                    out.push(format!("get_trader_state_from_index({}) disagrees", i));
                }
            }
            None => out.push(format!("no index for registered trader {}", k)),
        }
    }
    if m.get_registered_traders().len() != n {
        out.push(format!("{} traders listed but the count is {}", n, m.get_registered_traders().len()));
    }
    let stranger = Pubkey::new_from_array([7; 32]);
    if m.get_trader_state(&stranger).is_some() || m.get_trader_index(&stranger).is_some() {
        out.push("an unknown trader has a state".into());
    }
    for s in [PSide::Bid, PSide::Ask] {
        let b = m.get_book(s);
        let mut n = 0;
        for (id, o) in b.iter() {
            n += 1;
            let same = b.get(id).map_or(false, |x| {
                x.trader_index == o.trader_index && x.num_base_lots == o.num_base_lots && x.last_valid_slot == o.last_valid_slot && x.last_valid_unix_timestamp_in_seconds == o.last_valid_unix_timestamp_in_seconds
            });
            {
                use phoenix::state::markets::{OrderId, RestingOrder};
                let opt = |x: u64| if x == 0 { None } else { Some(x) };
                let (lvs, lvts) = (o.last_valid_slot, o.last_valid_unix_timestamp_in_seconds);
                if o.size() != o.num_base_lots.as_u64() || RestingOrder::last_valid_slot(o) != opt(lvs) || RestingOrder::last_valid_unix_timestamp_in_seconds(o) != opt(lvts) || OrderId::price_in_ticks(id) != id.price_in_ticks.as_u64() {
                    out.push(format!("order {:?} misstates itself", id));
                }
                for s in [0, 1, lvs.wrapping_sub(1), lvs, lvs.saturating_add(1), u64::MAX] {
                    for t in [0, 1, lvts.wrapping_sub(1), lvts, lvts.saturating_add(1), u64::MAX] {
                        if o.is_expired(s, t) != ((lvs != 0 && lvs < s) || (lvts != 0 && lvts < t)) {
                            out.push(format!("order {:?} is wrong about being expired at {}/{}", id, s, t));
                        }
                    }
                }
            }
            if !same {
                out.push(format!("looking up order {:?} disagrees with the listing", id));
            }
        }
        if b.len() != n {
            out.push(format!("{} orders listed but the count is {}", n, b.len()));
        }
    }
    if m.get_data_size() + std::mem::size_of::<MarketHeader>() != size(sp.bids_size, sp.asks_size, sp.num_seats).unwrap_or(0) {
        out.push("get_data_size disagrees with the size clients allocate".into());
    }
    out
}

fn header_views(d: &[u8]) -> Vec<(String, Vec<u8>)> {
    let h: &MarketHeader = bytemuck_header(d);
    vec![
        ("status".into(), h.status.to_le_bytes().to_vec()),
        ("base_lot".into(), h.get_base_lot_size().as_u64().to_le_bytes().to_vec()),
        ("quote_lot".into(), h.get_quote_lot_size().as_u64().to_le_bytes().to_vec()),
        ("tick".into(), h.get_tick_size_in_quote_atoms_per_base_unit().as_u64().to_le_bytes().to_vec()),
        ("seq".into(), h.market_sequence_number.to_le_bytes().to_vec()),
        ("authority".into(), h.authority.to_bytes().to_vec()),
        ("fee_recipient".into(), h.fee_recipient.to_bytes().to_vec()),
        ("successor".into(), h.successor.to_bytes().to_vec()),
        ("base_mint".into(), h.base_params.mint_key.to_bytes().to_vec()),
        ("quote_mint".into(), h.quote_params.mint_key.to_bytes().to_vec()),
        ("base_vault".into(), h.base_params.vault_key.to_bytes().to_vec()),
        ("quote_vault".into(), h.quote_params.vault_key.to_bytes().to_vec()),
        ("prices".into(), PRICES.iter().flat_map(|p| h.price_in_ticks(*p).to_le_bytes()).collect()),
    ]
}
fn bytemuck_header(d: &[u8]) -> &MarketHeader {
    assert_eq!(d.as_ptr() as usize % 8, 0);
    assert!(d.len() >= std::mem::size_of::<MarketHeader>());
    unsafe { &*(d.as_ptr() as *const MarketHeader) }
}

fn status(v: u8) -> Option<MarketStatus> {
    Some(match v {
        1 => MarketStatus::Active,
        2 => MarketStatus::PostOnly,
        3 => MarketStatus::Paused,
        4 => MarketStatus::Closed,
        5 => MarketStatus::Tombstoned,
        _ => return None,
    })
}
fn seat_status(v: u8) -> Option<SeatApprovalStatus> {
    Some(match v {
        0 => SeatApprovalStatus::NotApproved,
        1 => SeatApprovalStatus::Approved,
        2 => SeatApprovalStatus::Retired,
        _ => return None,
    })
}

fn behavior(b: u8) -> FailedMultipleLimitOrderBehavior {
    use FailedMultipleLimitOrderBehavior::*;
    match b {
        0 => FailOnInsufficientFundsAndAmendOnCross,
        1 => FailOnInsufficientFundsAndFailOnCross,
        2 => SkipOnInsufficientFundsAndAmendOnCross,
        _ => SkipOnInsufficientFundsAndFailOnCross,
    }
}
fn made(pk: &Pk, k: Maker) -> OrderPacket {
    use phoenix::state::SelfTradeBehavior as B;
    let sd = |s: mccore::world::Side| if s == Bid { PSide::Bid } else { PSide::Ask };
    let bh = |s: St| match s {
        St::Abort => B::Abort,
        St::CancelProvide => B::CancelProvide,
        St::DecrementTake => B::DecrementTake,
    };
    match *pk {
        Pk::PostOnly { side, px, lots, cid, reject, free, .. } => match k {
            Maker::PostDefault => OrderPacket::new_post_only_default(sd(side), px, lots),
            Maker::PostDefaultCid => OrderPacket::new_post_only_default_with_client_order_id(sd(side), px, lots, cid),
            Maker::PostAdjustable => OrderPacket::new_adjustable_post_only_default_with_client_order_id(sd(side), px, lots, cid),
            _ => OrderPacket::new_post_only(sd(side), px, lots, cid, reject, free),
        },
        Pk::Limit { side, px, lots, st, ml, cid, free, .. } => match k {
            Maker::LimitDefault => OrderPacket::new_limit_order_default(sd(side), px, lots),
            Maker::LimitDefaultCid => OrderPacket::new_limit_order_default_with_client_order_id(sd(side), px, lots, cid),
            _ => OrderPacket::new_limit_order(sd(side), px, lots, bh(st), ml, cid, free),
        },
        Pk::Ioc { side, px, lots, quote, minb, minq, st, ml, cid, free, tif } => {
            let p = px.unwrap_or(0);
            match k {
                Maker::FokSell => OrderPacket::new_fok_sell_with_limit_price(p, lots, bh(st), ml, cid, free),
                Maker::FokBuy => OrderPacket::new_fok_buy_with_limit_price(p, lots, bh(st), ml, cid, free),
                Maker::IocSell => OrderPacket::new_ioc_sell_with_limit_price(p, lots, bh(st), ml, cid, free),
                Maker::IocBuy => OrderPacket::new_ioc_buy_with_limit_price(p, quote, bh(st), ml, cid, free),
                Maker::IocLots => OrderPacket::new_ioc_by_lots(sd(side), p, lots, bh(st), ml, cid, free),
                Maker::BuySlippage => OrderPacket::new_ioc_buy_with_slippage(quote, minb),
                Maker::SellSlippage => OrderPacket::new_ioc_sell_with_slippage(lots, minq),
                _ => OrderPacket::new_ioc(sd(side), px, lots, quote, minb, minq, bh(st), ml, cid, free, tif.lvs, tif.lvts),
            }
        }
    }
}

/// Does the packet say of itself what was put into it?
fn told(p: &OrderPacket, pk: &Pk) -> bool {
    use phoenix::state::{OrderPacketMetadata, SelfTradeBehavior as B};
    let st_of = |p: &OrderPacket| match p.self_trade_behavior() {
        B::Abort => St::Abort,
        B::CancelProvide => St::CancelProvide,
        B::DecrementTake => St::DecrementTake,
    };
    let side = if p.side() == PSide::Bid { Bid } else { Ask };
    let kinds = (p.is_post_only(), p.is_ioc(), p.is_take_only(), p.is_fok());
    let common = (side, p.get_price_in_ticks().as_u64(), p.num_base_lots().as_u64(), p.client_order_id(), p.no_deposit_or_withdrawal(), p.get_last_valid_slot(), p.get_last_valid_unix_timestamp_in_seconds(), p.fail_silently_on_insufficient_funds());
    let quote = (p.num_quote_lots().as_u64(), p.quote_lot_budget().map(|x| x.as_u64()));
    match *pk {
        Pk::PostOnly { side, px, lots, cid, free, tif, silent, .. } => kinds == (true, false, false, false) && common == (side, px, lots, cid, free, tif.lvs, tif.lvts, silent) && quote.0 == 0,
        Pk::Limit { side, px, lots, st, ml, cid, free, tif, silent } => {
            kinds == (false, false, false, false) && common == (side, px, lots, cid, free, tif.lvs, tif.lvts, silent) && quote.0 == 0 && st == st_of(p) && p.match_limit() == ml.unwrap_or(u64::MAX)
        }
        Pk::Ioc { side, px, lots, quote: q, minb, minq, st, ml, cid, free, tif } => {
            let fok = (lots > 0 && lots == minb) || (q > 0 && q == minq);
            let worst = px.unwrap_or(if side == Bid { u64::MAX } else { 0 });
            kinds == (false, true, true, fok) && common == (side, worst, lots, cid, free, tif.lvs, tif.lvts, false) && quote == (q, if q == 0 { None } else { Some(q) }) && st == st_of(p) && p.match_limit() == ml.unwrap_or(u64::MAX)
        }
    }
}

/// The instructions the published builders make for an action; the parameters are taken over from the
/// action's own encoding.
fn builder(act: &Act, u: &Uni, k: &BuildKeys) -> Option<Vec<BuiltIx>> {
    let (who, op) = match act {
        Act::Ix { who, op, .. } => (*who, op),
        _ => return None,
    };
    let data = enc_op(u, op);
    let body = &data[1..];
    let me = u.wallet_key(who);
    let per = |p: Pid| u.wallet_key(p);
    let (mk, b, q) = (&k.market, &k.bmint, &k.qmint);
    let (mb, mq) = (u.key(u.persons[who as usize].base), u.key(u.persons[who as usize].quote));
    let v: Vec<Instruction> = match op {
        // the packet as encoded here, and as each constructor that can express it makes it
        Op::Order(m, pk) => {
            let p = OrderPacket::try_from_slice(body).ok()?;
            if !told(&p, pk) {
                return None;
            }
            let make = |p: &OrderPacket| match m {
                Mode::Swap | Mode::Place => create_new_order_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, p),
                _ => create_new_order_with_free_funds_instruction(mk, &me, p),
            };
            let mut v = vec![make(&p)];
            if !m.ff() {
                v.push(create_new_order_instruction(mk, &me, b, q, &p));
            }
            v.extend(pk.makers().into_iter().map(|k| make(&made(pk, k))));
            v
        }
        Op::Multi(mp, ff) => {
            let p = MultipleOrderPacket::try_from_slice(body).ok()?;
            let make = |p: &MultipleOrderPacket| {
                if *ff {
                    create_new_multiple_order_with_free_funds_instruction(mk, &me, p)
                } else {
                    create_new_multiple_order_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, p)
                }
            };
            let mut v = vec![make(&p)];
            if !*ff {
                v.push(create_new_multiple_order_instruction(mk, &me, b, q, &p));
            }
            let cond = |l: &[Cond]| {
                l.iter()
                    .map(|c| match c.tif {
                        GTC => CondensedOrder::new_default(c.px, c.lots),
                        t => CondensedOrder { price_in_ticks: c.px, size_in_base_lots: c.lots, last_valid_slot: t.lvs, last_valid_unix_timestamp_in_seconds: t.lvts },
                    })
                    .collect::<Vec<_>>()
            };
            let (bids, asks) = (cond(&mp.bids), cond(&mp.asks));
            for k in multi_makers(mp) {
                v.push(make(&match k {
                    0 => MultipleOrderPacket::new_with_failure_behavior(bids.clone(), asks.clone(), mp.cid, behavior(mp.beh)),
                    1 => MultipleOrderPacket::new(bids.clone(), asks.clone(), mp.cid, mp.beh == 1),
                    _ => MultipleOrderPacket::new_default(bids.clone(), asks.clone()),
                }));
            }
            v
        }
        Op::Reduce { ff, .. } => {
            let p = ReduceOrderParams::try_from_slice(body).ok()?;
            if *ff {
                vec![create_reduce_order_with_free_funds_instruction(mk, &me, &p)]
            } else {
                vec![reduce_order_instruction(mk, &me, b, q, &p), create_reduce_order_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, &p)]
            }
        }
        Op::CancelAll { ff } => {
            if *ff {
                vec![create_cancel_all_order_with_free_funds_instruction(mk, &me)]
            } else {
                vec![create_cancel_all_orders_instruction(mk, &me, b, q), create_cancel_all_orders_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q)]
            }
        }
        Op::CancelUpTo { ff, .. } => {
            let p = CancelUpToParams::try_from_slice(body).ok()?;
            if *ff {
                vec![create_cancel_up_to_with_free_funds_instruction(mk, &me, &p)]
            } else {
                vec![create_cancel_up_to_instruction(mk, &me, b, q, &p), create_cancel_up_to_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, &p)]
            }
        }
        Op::CancelIds { ff, .. } => {
            let p = CancelMultipleOrdersByIdParams::try_from_slice(body).ok()?;
            if *ff {
                vec![create_cancel_multiple_orders_by_id_with_free_funds_instruction(mk, &me, &p)]
            } else {
                vec![
                    create_cancel_multiple_orders_by_id_instruction(mk, &me, b, q, &p),
                    create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, &p),
                ]
            }
        }
        Op::Withdraw { q: wq, b: wb } => {
            let p = WithdrawParams::try_from_slice(body).ok()?;
            let mut v = vec![create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q, &p)];
            match (wq, wb) {
                (None, None) => {
                    v.push(create_withdraw_funds_instruction(mk, &me, b, q));
                    v.push(create_withdraw_funds_instruction_with_custom_token_accounts(mk, &me, &mb, &mq, b, q));
                }
                (Some(x), Some(y)) => v.push(create_withdraw_funds_with_custom_amounts_instruction(mk, &me, b, q, *y, *x)),
                _ => {}
            }
            v
        }
        Op::Deposit { .. } => {
            let p = DepositParams::try_from_slice(body).ok()?;
            vec![create_deposit_funds_instruction(mk, &me, b, q, &p), create_deposit_funds_instruction_with_custom_token_accounts(mk, &me, &u.key(u.persons[who as usize].seat), &mb, &mq, b, q, &p)]
        }
        Op::RequestSeat => vec![create_request_seat_instruction(&me, mk)],
        Op::RequestSeatAuth { trader } => vec![create_request_seat_authorized_instruction(&me, &me, mk, &per(*trader))],
        Op::ChangeSeat { trader, status } => vec![create_change_seat_status_instruction(&me, mk, &per(*trader), seat_status(*status)?)],
        Op::Evict { trader } => vec![create_evict_seat_instruction(&me, mk, &per(*trader), b, q)],
        Op::ForceCancel { trader, p } => {
            // the builder always asks for everything on one side
            let side = if p.side == Bid { 0 } else { 1 };
            vec![create_force_cancel_orders_instructions(mk, &per(*trader), &me, b, q).into_iter().nth(side)?]
        }
        Op::Init(_) => {
            let p = InitializeParams::try_from_slice(body).ok()?;
            let sp = p.market_size_params;
            let mut v = vec![create_initialize_market_instruction(
                mk,
                b,
                q,
                &me,
                sp,
                p.num_quote_lots_per_quote_unit,
                p.num_base_lots_per_base_unit,
                p.tick_size_in_quote_lots_per_base_unit,
                p.taker_fee_bps,
                &p.fee_collector,
                p.raw_base_units_per_base_unit,
            )];
            let mut pairs = vec![create_initialize_market_instructions(
                mk,
                b,
                q,
                &me,
                sp,
                p.num_quote_lots_per_quote_unit,
                p.num_base_lots_per_base_unit,
                p.tick_size_in_quote_lots_per_base_unit,
                p.taker_fee_bps,
                &p.fee_collector,
                p.raw_base_units_per_base_unit,
            )];
            if p.fee_collector == me {
                pairs.push(create_initialize_market_instructions_default(
                    mk,
                    b,
                    q,
                    &me,
                    sp,
                    p.num_quote_lots_per_quote_unit,
                    p.num_base_lots_per_base_unit,
                    p.tick_size_in_quote_lots_per_base_unit,
                    p.taker_fee_bps,
                    p.raw_base_units_per_base_unit,
                ));
            }
            // the account they create beforehand must be one the market fits in
            let n = size(sp.bids_size, sp.asks_size, sp.num_seats)?;
            let make = solana_program::system_instruction::create_account(&me, mk, solana_program::rent::Rent::default().minimum_balance(n), n as u64, &phoenix::id());
            for pair in pairs {
                match &pair.ok()?[..] {
                    [a, b] if *a == make => v.push(b.clone()),
                    _ => return None,
                }
            }
            v
        }
        Op::Claim => vec![create_claim_authority_instruction(&me, mk)],
        Op::Name { succ } => vec![create_name_successor_instruction(&me, mk, &per(*succ))],
        Op::Status { to, receiver: None } => vec![create_change_market_status_instruction(&me, mk, status(*to)?)],
        Op::Status { .. } => return None,
        Op::Collect { dest } => vec![
            create_collect_fees_instruction_default(mk, &me, &per(*dest), q),
            create_collect_fees_instruction(mk, &me, &u.key(u.persons[*dest as usize].quote), q),
        ],
        Op::FeeRecipient { new, prev: None } => vec![create_change_fee_recipient_instruction(&me, mk, &per(*new))],
        Op::FeeRecipient { new, prev: Some(p) } => vec![create_change_fee_recipient_with_unclaimed_fees_instruction(&me, mk, &per(*new), &per(*p))],
        Op::Log => return None,
    };
    Some(
        v.into_iter()
            .map(|i| BuiltIx { program: i.program_id, metas: i.accounts.iter().map(|a| (a.pubkey, a.is_signer, a.is_writable)).collect(), data: i.data })
            .collect(),
    )
}

fn main() {
    let t = Target {
        program: phoenix::id,
        log_auth: || phoenix::phoenix_log_authority::ID,
        process: phoenix::process_instruction,
        read,
        size,
        ladder,
        views,
        builder,
        header_views,
    };
    mccore::driver::main(&t);
}
