//! Which kinds of divergence speak about which property.
use crate::check::Cat;
use crate::spec::Pred;
use crate::world::*;

pub fn relevant(prop: &str, cat: Cat, act: &Act, pre: &Abs, pred: &Pred) -> bool {
    use Cat::*;
    let op = match act {
        Act::Ix { op, .. } => Some(op),
        _ => None,
    };
    let funds = matches!(cat, Balance | Wallet | Vault | Uncollected | Conserved | Bystander | Solvency | Locked | Problem | Registered);
    let decision = matches!(cat, Accepted | Rejected);
    let book = matches!(cat, Book | Malformed | Crossed | Problem);
    let exits = matches!(
        op,
        Some(Op::Withdraw { .. } | Op::Reduce { .. } | Op::CancelAll { .. } | Op::CancelUpTo { .. } | Op::CancelIds { .. } | Op::Evict { .. } | Op::ForceCancel { .. } | Op::Collect { .. })
    );
    let trading = matches!(op, Some(Op::Order(..) | Op::Multi(..)));
    let post_only = matches!(op, Some(Op::Order(_, Pk::PostOnly { .. }) | Op::Multi(..)));
    let cancelling = matches!(
        op,
        Some(Op::Reduce { .. } | Op::CancelAll { .. } | Op::CancelUpTo { .. } | Op::CancelIds { .. } | Op::ForceCancel { .. })
    );
    let cash = matches!(op, Some(Op::Deposit { .. } | Op::Withdraw { .. }));
    let free_only = match op {
        Some(Op::Order(m, p)) => {
            matches!(m, Mode::SwapFF | Mode::PlaceFF)
                || match p {
                    Pk::PostOnly { free, .. } | Pk::Limit { free, .. } | Pk::Ioc { free, .. } => *free,
                }
        }
        Some(Op::Multi(_, ff)) => *ff,
        Some(Op::Reduce { ff, .. } | Op::CancelAll { ff } | Op::CancelUpTo { ff, .. } | Op::CancelIds { ff, .. }) => *ff,
        _ => false,
    };
    // an order of the signer rests on the side the new order could take from
    let own_rests = match act {
        Act::Ix { who, op: Op::Order(_, p), .. } => {
            let side = match p {
                Pk::PostOnly { side, .. } | Pk::Limit { side, .. } | Pk::Ioc { side, .. } => *side,
            };
            pre.book(side.opp()).iter().any(|o| o.who == *who)
        }
        _ => false,
    };
    let has_expiry = pre.bids.iter().chain(&pre.asks).any(|o| o.lvs != 0 || o.lvts != 0)
        || match op {
            Some(Op::Order(_, p)) => {
                let tif = match p {
                    Pk::PostOnly { tif, .. } | Pk::Limit { tif, .. } | Pk::Ioc { tif, .. } => tif,
                };
                tif.lvs.is_some() || tif.lvts.is_some()
            }
            Some(Op::Multi(..)) => true,
            _ => false,
        };
    match prop {
        "C01" => matches!(cat, Solvency | Locked | Problem | Vault) || (cat == Rejected && exits) || (cat == Registered && op_is_exit(op)),
        "C02" => funds || matches!(cat, Book | Lamports | Residual | Collected | SeatStatus),
        "C03" => trading && (book || funds || decision || matches!(cat, Limits | LogEvents | Return | SelfFill | Replay)),
        "C04" => trading && (book || funds || decision || matches!(cat, Limits | LogEvents | Return | Replay | FeeInv)),
        "C05" => (trading || matches!(op, Some(Op::Collect { .. } | Op::FeeRecipient { .. } | Op::Status { .. })) || matches!(cat, Solvency | Uncollected | Vault | Collected)) && (funds || decision || matches!(cat, FeeInv | Collected | FeeRec | LogEvents)),
        "C06" => post_only && (book || funds || decision || matches!(cat, Limits | LogEvents | Return | Oseq | Replay)),
        "C07" => book || (decision && trading) || matches!(cat, Replay),
        "C08" => own_rests && (book || funds || decision || matches!(cat, SelfFill | Limits | LogEvents | Return | FeeInv | Replay)) || cat == SelfFill,
        "C09" => has_expiry && (book || funds || decision || matches!(cat, Limits | LogEvents | Return | Replay | Oseq)),
        "C10" => cancelling && (book || funds || decision || matches!(cat, LogEvents | Replay | Oseq)),
        "C11" => free_only && (book || funds || decision || matches!(cat, Return | Oseq)),
        "C12" => cash && (funds || decision || matches!(cat, Book | SeatStatus | Status | Residual | Lamports)),
        "C13" => trading && (book || funds || decision || matches!(cat, LogEvents | Return | Oseq | Replay)),
        "C14" => matches!(op, Some(Op::Multi(..))) && (book || funds || decision || matches!(cat, LogEvents | Return | Oseq | Replay)),
        "C15" => matches!(cat, LogHeader | LogEvents | LogBatch | Replay | Mseq | FeeInv | Book | Problem | Rejected | Collected | Uncollected | Limits),
        "C16" => book || (trading && decision) || matches!(cat, Return | Oseq | LogEvents | Replay),
        "C17" => decision || funds || matches!(cat, Residual | Authority | Status | FeeRec | SeatStatus | Header | Lamports | LogHeader | Live | Book | Mseq),
        "C18" => decision || funds || matches!(cat, Status | Live | Lamports | Limits | Book | Residual | Header | SeatStatus),
        "C19" => decision || funds || matches!(cat, SeatStatus | Book | Residual | Lamports | Malformed | LogEvents),
        "C20" => decision || funds || matches!(cat, Live | Status | Authority | FeeRec | Header | Residual | Lamports | Problem | Book | Oseq | Mseq),
        "C21" => decision || matches!(cat, Authority | FeeRec | Status | SeatStatus | Header | Residual | Registered | Book | Wallet),
        "C22" => decision || funds || book || matches!(cat, Return | View | SeatStatus | Status | Authority | FeeRec | LogEvents | Collected | Limits | Oseq | Residual | Live | Header),
        "C23" => matches!(cat, View | Ladder | Problem | Collected | Uncollected | Balance | Book | Oseq | Header | Registered),
        "C24" => trading && (funds || decision || matches!(cat, Book | FeeInv | Limits | Oseq)),
        "C25" => matches!(cat, Differ) || decision || book || funds || matches!(cat, Return | Oseq | Live | Header),
        "C26" => cat == Stuck || (exits || matches!(op, Some(Op::Status { .. } | Op::ChangeSeat { .. }))) && (decision || funds || matches!(cat, Book | Live | Residual | Status | SeatStatus)),
        _ => {
            let _ = pred;
            true
        }
    }
}

fn op_is_exit(op: Option<&Op>) -> bool {
    matches!(op, Some(Op::Withdraw { .. } | Op::Evict { .. }))
}
