# The properties. Texts only; gen.py turns them into properties.jsonl and MANIFEST.json.
PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mech, note):
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note))


X = "ref-exchange/src/"
F = "ref-farming/src/"

P("E01", "Every token the exchange holds is on its books, and nothing more",
  "At every moment the amount of each token held by the exchange equals what its books owe in that token: users' inner balances, pool reserves, lost-and-found entries and transfers still in flight. No sequence of deposits, withdrawals (also failing ones), swaps, liquidity changes, instant swaps, zaps, transfers, donations or fee collections makes the books exceed or fall short of the holdings.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of the exchange's public operations, all outcomes of the token transfers they start, and all orders in which receipts of concurrent transactions are delivered.",
  "Tests follow a handful of scripted sequences in which transfers mostly succeed and receipts run in one order; the books can only be wrong after some combination of operations, a failed transfer, or an interleaving nobody scripted.",
  [X + "account_deposit.rs", X + "token_receiver.rs", X + "lib.rs", X + "account_lostfound.rs", X + "owner.rs", X + "donation.rs", X + "multi_fungible_token.rs", X + "pool.rs"],
  [("inner account credit and debit", X + "account_deposit.rs: Account::deposit, Account::withdraw"),
   ("deposit and instant actions", X + "token_receiver.rs: ft_on_transfer"),
   ("outgoing transfers and their callbacks", X + "account_deposit.rs: internal_send_tokens, exchange_callback_post_withdraw"),
   ("reserves", X + "pool.rs")],
  "Exhaustive to the stated depth over a fixed operation alphabet with boundary amounts, every environment answer, and (interleaving scenario) every delivery order. Token contracts are modelled as standard NEP-141 contracts; gas is not modelled.")

P("E03", "Each pool's share supply is exactly the sum of its holders' shares",
  "For every pool of every kind, the reported total supply of liquidity shares equals the sum of the shares of all holders, including the exchange itself and referrers. Minting, burning, transferring, donating, fee payments and refunds never create or lose a share on one side only.",
  ["histories", "configurations"],
  "All histories of operations that touch shares, in simple, stable, rated and degen pools.",
  "Unit tests compare supply with one or two holders after single operations; drift only shows for particular combinations of fee minting, burning, transfers and registration.",
  [X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "multi_fungible_token.rs"],
  [("share minting and burning", X + "simple_pool.rs: mint_shares, remove_liquidity"),
   ("stable family shares", X + "stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: mint_shares, remove_*"),
   ("share transfers", X + "pool.rs: share_transfer")],
  "Exhaustive to the stated depth over a fixed operation alphabet; holders are the closed set of accounts of the scenario.")

P("E02", "A withdrawal that fails gives the tokens back, whatever happened meanwhile",
  "When a token transfer to a user (withdrawal, unwrapped NEAR, or the proceeds of an instant swap) fails, exactly its amount returns to that user: to the inner balance if the account exists and has the token registered or storage left for it, otherwise to the user's lost-and-found entry (or, when the contract has less than 100 NEAR free, to the owner's inner account). When it succeeds nothing is credited, and no order in which receipts arrive and no operation of the user in between (unregistering the token, withdrawing the storage deposit, closing the account, claiming) makes the callback fail, loses the amount or pays it twice. Claiming a lost-and-found entry pays exactly it once.",
  ["histories", "schedules", "fault_sequences"],
  "All outcomes of every transfer, all interleavings of the receipts of concurrent withdrawals with the user's own operations, with and without free NEAR in the contract.",
  "The simulator tests settle each transaction before the next one and hardly ever make a transfer fail; the loss needs a failure at a point where the account has changed since.",
  [X + "account_deposit.rs", X + "account_lostfound.rs", X + "token_receiver.rs"],
  [("outgoing transfers", X + "account_deposit.rs: internal_send_tokens, internal_send_near"),
   ("callbacks", X + "account_deposit.rs: exchange_callback_post_withdraw, exchange_callback_post_withdraw_near"),
   ("lost and found", X + "account_lostfound.rs: internal_deposit_to_lostfound, claim_lostfound")],
  "Every interleaving of receipts to the stated depth with at most three transactions in flight, every transfer succeeding or failing. Transfers of client-echo swaps (ft_transfer_call) are outside this property.")

P("E04", "Pledged shares stay backed: they cannot be spent, and every pledge can end",
  "At all times a user's shares in a pool cover what the exchange records as pledged to farming and to lending (the same shares may be pledged to both), and the record never drops below what the farming or lending contract still holds; pledged shares cannot be transferred, removed or donated, nor the account be closed, and unpledged ones can. A pledge that is refused, or a release that is accepted, lowers the record by exactly its amount, so that with nothing in flight the records equal what the other contracts hold; the storage fee of a pledge is returned once, when its record ends.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of pledging, releasing, transferring, removing and donating, all answers of the farming and lending contracts, and all orders of their receipts.",
  "The records live in two contracts and change in callbacks: the dangerous states exist only between a request and its answer, which the tests never interleave.",
  [X + "shadow_actions.rs", X + "account_deposit.rs", X + "multi_fungible_token.rs", X + "donation.rs", X + "lib.rs"],
  [("requests and callbacks", X + "shadow_actions.rs: shadow_action, callback_on_shadow"),
   ("records", X + "account_deposit.rs: ShadowRecord, update_shadow_record"),
   ("free shares", X + "multi_fungible_token.rs: internal_mft_transfer; lib.rs: remove_liquidity, remove_liquidity_by_tokens; donation.rs: donation_share")],
  "One user with pledges in one simple pool, requests of a third, a half and all shares; the other contracts keep an honest ledger and may refuse. Without liquidations (see E23).")

P("E20", "A transfer with a call returns what the receiver did not use, exactly",
  "After mft_transfer_call or mft_transfer_all_call, of shares or of inner balances, the amount the receiver reports as unused (everything, if it fails or answers nonsense; never more than was sent), but no more than the receiver still has, returns to the sender, or to the exchange when the sender has closed the account. The result reports the amount returned, nobody else's balance changes, and no share or token is created or lost, whatever sender and receiver do before the answer arrives.",
  ["inputs", "histories", "schedules"],
  "All answers of the receiver, and all interleavings of the answer with transfers, withdrawals, pledges and account closing by sender and receiver.",
  "Tests use receivers that accept or refuse at once; the refund depends on what happened between the call and its resolution.",
  [X + "multi_fungible_token.rs"],
  [("transfer", X + "multi_fungible_token.rs: internal_mft_transfer"), ("resolution", X + "multi_fungible_token.rs: mft_resolve_transfer")],
  "Eight kinds of answers, every interleaving to the stated depth. When the receiver has pledged the shares or the sender has unregistered, only conservation and the upper bound are required.")

P("E23", "Liquidation takes exactly the given pledged shares and pays out their value",
  "Only the lending contract can liquidate, and only shares pledged to it; a liquidation burns exactly the given shares of the debtor, pays the liquidator, and nobody else, their proportional part of the reserves, at least the given minimum of each token or nothing happens at all. It lowers the lending pledge by the amount, and the farming pledge only as far as needed for the remaining shares to cover it, telling the farm exactly that; with requests of the debtor in flight the records stay covered by the shares and no pledge is kept that nobody holds.",
  ["inputs", "histories", "schedules"],
  "All mixes of farming and lending pledges and liquidated amounts, repeated liquidations, and liquidations that overlap pledging and releasing.",
  "Tests liquidate once from one or two prepared states; the farming part depends on all three amounts and on what is in flight.",
  [X + "shadow_actions.rs", X + "account_deposit.rs"],
  [("liquidation", X + "shadow_actions.rs: on_burrow_liquidation"), ("records", X + "account_deposit.rs: update_shadow_record, ShadowRecord::free_shares")],
  "Simple and stable pool, amounts from one share to all shares. Known finding: a liquidation that cuts the farming pledge under a farming request in flight makes its callback fail.")

P("E05", "Simple pools trade at the constant-product price, rounded for the pool",
  "A swap of a given input in a simple pool pays exactly the constant-product amount after the pool's total fee, rounded down; a swap for a given output costs exactly the smallest input the formula asks for, plus its rounding in the pool's favour. The trader's inner balances and the pool's reserves change by exactly these amounts and nobody else's change; the product of the reserves never falls. Chained actions feed each other in order, an action without an amount uses the previous result, mixed or malformed lists, zero amounts, unknown pools and tokens, and amounts the trader does not have are refused as a whole, and the reported result is what was paid (or what it cost).",
  ["inputs", "histories"],
  "All amounts of a boundary grid (from 1 to beyond the reserves) in pools with reserves from a few units to 2^110, fees from 0 to 99.99 %, both directions, both kinds of swap, chains, and all histories of them to the stated depth.",
  "Tests check a few rounded numbers; an error of one unit, a wrong rounding direction or a fee applied to the wrong side shows only for particular reserves, fees and amounts.",
  [X + "simple_pool.rs", X + "lib.rs", X + "action.rs", X + "pool.rs"],
  [("price", X + "simple_pool.rs: internal_get_return, internal_get_return_by_output, swap, swap_by_output"),
   ("lists of actions", X + "lib.rs: internal_execute_actions, internal_execute_action, internal_pool_swap")],
  "Every call of every history is compared with an independent reference model in exact arithmetic. Inputs are a boundary grid, not all integers; numbers beyond 2^118 may be refused.")

P("E06", "Liquidity of simple pools is added and removed in exact proportion",
  "Adding liquidity to a simple pool takes, from the amounts offered, the largest part in proportion to the reserves, rounded up in the pool's favour, and mints the proportional shares (a fixed number for the first provider); it never takes more than offered, and is refused if that would mint nothing. Removing pays exactly the proportional part of each reserve, rounded down, and burns exactly the shares given, of which the user must have enough. Reserves per share never fall, and nobody else's shares or balances change.",
  ["inputs", "histories"],
  "All offers and removals of a grid from one unit to everything, in pools from a few units to 2^110, after all histories of adding, removing and swapping to the stated depth.",
  "Rounding of shares is where pools are drained one unit at a time; the tests add and remove round numbers once.",
  [X + "simple_pool.rs", X + "lib.rs"],
  [("adding", X + "simple_pool.rs: add_liquidity"), ("removing", X + "simple_pool.rs: remove_liquidity"), ("payment", X + "lib.rs: add_liquidity, remove_liquidity")],
  "Every call is compared with exact arithmetic. Two-token pools, the only kind that can be created.")

P("E07", "Stable, rated and degen pools trade and mint on their curve",
  "In pools of the stable family (also with rates and oracle prices), a swap, adding liquidity, removing for shares and removing chosen amounts each move the reserves along the StableSwap invariant for the pool's amplification and rates: the output of a swap (after the fee), the shares minted and the shares burned (with the fee on the unbalanced part) equal the exact solution up to a few units of the pool's internal precision, and the invariant per share never falls by more. Inner balances change by exactly the amounts paid, whatever the tokens' decimals. Valid trades above the pool's minimum reserve (and above dust too small to move the invariant) are not refused, and what is taken out never leaves less than that minimum of a token. The first deposit must contain every token and is worth the invariant.",
  ["inputs", "histories", "configurations"],
  "Seven pools (two to four tokens, 6 to 24 decimals, amplification 1 to 1000000, fees 0 to 99.99 %, balanced, far from balance, with rates and prices), all token pairs, amounts from one unit to 90 times the reserve, all histories to the stated depth.",
  "Newton iterations, decimals and rates interact: an error shows for particular imbalances, decimals or dust amounts; the tests compare a few trades with recorded numbers.",
  [X + "stable_swap/math.rs", X + "stable_swap/mod.rs", X + "rated_swap/math.rs", X + "rated_swap/mod.rs", X + "degen_swap/math.rs", X + "degen_swap/mod.rs"],
  [("curve", X + "stable_swap/math.rs: compute_d, compute_y, swap_to, compute_lp_amount_for_deposit, compute_lp_amount_for_withdraw"),
   ("rates", X + "rated_swap/math.rs, degen_swap/math.rs"),
   ("decimals", X + "stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: amount_to_c_amount, c_amount_to_amount")],
  "Every call is compared with an independent solution of the curve at about 40 more bits of precision; the tolerance grows with the imbalance, as the contract's own integer rounding does.")

P("E08", "No user gets less, or pays more, than the bound they set",
  "Wherever a call takes a bound (minimum output of a swap, of each leg of a chain, of an instant swap or a swap inside a zap; maximum input of a swap for an output; minimum amounts or shares when adding or zapping liquidity; minimum amounts when removing; maximum shares burned), a bound that the outcome does not meet makes the whole call have no effect on the exchange's state or any token balance, a bound that is exactly met is accepted, and the bound never changes the outcome.",
  ["inputs", "histories"],
  "All bounded calls in all kinds of pools, with the bound at its exact tipping point, in all states reached by histories of such calls to the stated depth.",
  "Tests use bounds far from the result; off-by-one comparisons, bounds checked before fees or ignored on one path only show at the tipping point of that path.",
  [X + "lib.rs", X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "token_receiver.rs", X + "action.rs"],
  [("swaps", X + "simple_pool.rs, stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: swap, swap_by_output"),
   ("liquidity", X + "lib.rs: add_liquidity, add_stable_liquidity, remove_liquidity, remove_liquidity_by_tokens"),
   ("zaps", X + "token_receiver.rs: ft_on_transfer")],
  "For each call the tipping point is found in the state itself and the call is run at, and one unit beyond, the bound.")

P("E09", "The admin part of every fee goes to the exchange and the referrer, exactly",
  "A swap mints as fee shares exactly the admin part of its fee, valued at the pool's invariant: in simple pools to the exchange and, of the configured referral part, to a named referrer that has an entry in the referral list and is a provider of that pool; in stable-family pools likewise, the referrer's part being its share of the fee shares. Adding and removing unbalanced liquidity in stable-family pools mints the admin part of the fee to the exchange alone. Without admin fee, or without an eligible referrer, that part is not minted to anyone else; the supply grows by exactly what was minted, and changing the fees or removing a referrer takes effect at once.",
  ["inputs", "histories", "configurations"],
  "All kinds of pools, admin fees from 0 to 80 %, with and without an eligible referrer, amounts from one unit to many times the reserves, histories to the stated depth.",
  "Fee shares are dust compared with the trades; the tests look at totals for one configuration.",
  [X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "admin_fee.rs", X + "stable_swap/math.rs"],
  [("simple pools", X + "simple_pool.rs: internal_swap, swap_by_output"), ("stable family", X + "stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: swap, add_liquidity, remove_liquidity_by_tokens"), ("configuration", X + "admin_fee.rs; owner.rs: modify_admin_fee, insert_referral")],
  "Simple pools to one share, stable-family pools to the rounding of the contract's invariant.")

P("E21", "The exchange's quotes come true",
  "The quoting views (get_return and get_return_by_output, the rated and degen variants, predict_swap_actions and its batch form, predict_add_simple_liquidity, predict_add_stable/rated/degen_liquidity, predict_remove_liquidity, predict_remove_liquidity_by_tokens and variants, predict_hot_zap) say exactly what the corresponding call, made next in the same state, does: the amounts paid and taken, the shares minted and burned, and every remaining balance. A zap that is empty, or that unlisted or frozen tokens, a value limit or a missing pool forbid, is promised nothing.",
  ["inputs", "histories"],
  "All accepted calls of the alphabet in all kinds of pools, in all states reached by histories to the stated depth.",
  "Quoting is separate code from executing; the tests compare the two for a few trades, and slippage limits computed from a wrong quote fail or lose money for the rest.",
  [X + "views.rs", X + "lib.rs", X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs"],
  [("single quotes", X + "views.rs: get_return, get_return_by_output, get_rated_return, get_degen_return"),
   ("predictions", X + "views.rs: predict_swap_actions, predict_hot_zap, predict_add_*, predict_remove_*")],
  "For calls that succeed. Rated and degen variants are asked with the rates in force.")

P("E22", "The reported volume of each pool is what was traded",
  "For every token of every pool the reported input and output volume grow by exactly the amounts swapped in and out through that pool, by the token's position, and by nothing else; refused trades and liquidity changes leave them alone, and the three volume views agree.",
  ["histories", "configurations"],
  "All swaps (by input, by output, chained, in all kinds of pools) and liquidity changes of the alphabet, all histories to the stated depth.",
  "Tests look at volumes after one or two swaps of one pool.",
  [X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "utils.rs", X + "views.rs"],
  [("accumulation", X + "simple_pool.rs, stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: swap"), ("views", X + "views.rs: get_pool_volumes, list_pool_volumes, get_pool_volumes_by_ids")],
  "Exact.")

P("E11", "Every privileged call works for its role only, whoever holds it now",
  "Owner functions (appointing a new owner or guardians, resuming, fees, oracles, limits, retrieving unmanaged tokens, unregistering, the client-echo removals, the upgrade) act only for the current owner, guardian functions (pausing, freezing and listing tokens, referrals, pool fees, amplification, creating stable-family pools, taking fee shares and the owner's tokens) only for the owner or a current guardian, liquidation only for the lending contract, migration and every callback only for the exchange itself; and they do act for them, also right after ownership or guardianship changed. Each of them, and each user call that moves property, needs exactly the deposit of one yoctoNEAR where such a rule exists; a refused call changes nothing. Initialisation cannot be repeated.",
  ["inputs", "histories", "configurations"],
  "Every privileged or guarded call with every kind of caller and deposit, and every callback forged with all combinations of promise results by every kind of caller, in all states reached by transferring ownership, changing guardians and pausing.",
  "Tests try a wrong caller for some functions, in the initial configuration; one forgotten guard, or a guard that accepts a former owner, is a full loss of funds.",
  [X + "owner.rs", X + "lib.rs", X + "shadow_actions.rs", X + "account_deposit.rs", X + "account_lostfound.rs", X + "multi_fungible_token.rs", X + "donation.rs", X + "client_echo_limit.rs", X + "pool_limit_info.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "twap.rs", X + "storage_impl.rs"],
  [("owner and guardian checks", X + "owner.rs: assert_owner, is_owner_or_guardians"),
   ("lending market", X + "shadow_actions.rs: on_burrow_liquidation"),
   ("private callbacks", X + "account_deposit.rs, shadow_actions.rs, multi_fungible_token.rs, owner.rs: #[private] functions"),
   ("upgrade", X + "owner.rs: upgrade")],
  "The table of calls and roles is part of the check; the cross product of calls, callers and deposits is run in every state.")

P("E12", "While paused nothing but the lending market's liquidation moves funds",
  "From the moment the owner or a guardian pauses the exchange until the owner (and nobody else) resumes it, every deposit, instant swap, zap, swap, liquidity change, withdrawal, claim, share or token transfer, pledge, release, donation, registration, storage operation and pool creation is refused without effect, while the lending market can still liquidate. Transfers, pledges and share transfers already in flight settle as if nothing had happened, and after resuming every operation does what it would have done without the pause.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of user operations, pausing and resuming to the stated depth; all delivery orders and failures of receipts in flight when the pause comes.",
  "Tests pause and try a few functions; a new or reworked function without the check, or a callback with it (which would lose money), goes unnoticed.",
  [X + "lib.rs", X + "owner.rs", X + "token_receiver.rs", X + "account_deposit.rs", X + "account_lostfound.rs", X + "multi_fungible_token.rs", X + "shadow_actions.rs", X + "donation.rs", X + "storage_impl.rs"],
  [("the switch", X + "owner.rs: change_state"), ("the check", X + "lib.rs: assert_contract_running"), ("callbacks", X + "account_deposit.rs, multi_fungible_token.rs, shadow_actions.rs")],
  "Price and rate updates, synchronising average prices and administration are outside. 41 kinds of user operations, each valid in the initial state.")

P("E13", "A frozen token does not move through the exchange",
  "While a token is frozen no operation that deposits, withdraws, claims, swaps, adds, removes, zaps or liquidates it (or a pool that contains it) has any effect, whichever position it has in the operation. Operations that do not touch a frozen token do what they would do without any freeze, and after thawing everything works again.",
  ["histories", "inputs"],
  "All user operations in all combinations of frozen tokens reached by freezing and thawing, by the owner or a guardian, to the stated depth.",
  "Each entry point has its own check over its own list of tokens; tests exercise single tokens in first position.",
  [X + "lib.rs", X + "token_receiver.rs", X + "account_deposit.rs", X + "account_lostfound.rs", X + "shadow_actions.rs", X + "owner.rs", X + "utils.rs"],
  [("the list", X + "owner.rs: extend_frozenlist_tokens, remove_frozenlist_tokens"), ("the check", X + "lib.rs: assert_no_frozen_tokens and its callers")],
  "Share transfers, transfers between inner accounts, donations and the owner's withdrawal of fees are outside (they do not move the token out of the exchange on a user's behalf). For swaps the tokens of the actions count.")

P("E15", "Only listed tokens, or those the user registered, enter the user's account",
  "A deposit, a zap, and a trade made without attached NEAR go through only if each token concerned is on the list, ends in a listed suffix, or is registered in the user's own account, and then they do go through. Listing, delisting and registering take effect at once.",
  ["histories", "inputs"],
  "All histories of listing and delisting (exact and by suffix), registering and unregistering, against deposits, zaps and trades with and without attached NEAR.",
  "The rule is applied in several entry points over several lists; tests cover the plain cases.",
  [X + "lib.rs", X + "token_receiver.rs", X + "account_deposit.rs", X + "owner.rs", X + "utils.rs"],
  [("the list", X + "owner.rs: extend_whitelisted_tokens, extend_auto_whitelisted_postfix"), ("deposits", X + "account_deposit.rs: internal_deposit; token_receiver.rs"), ("trades", X + "lib.rs: swap, execute_actions; utils.rs: is_global_whitelisted")],
  "Three unlisted tokens in two pools; histories to the stated depth.")

P("E16", "A token's rate is what its own contract last said, and expires after a day",
  "The recorded rate of a rated token changes only when an update of that token receives a proper answer from the contract designated for it; it then is exactly that answer, dated that moment, and a failed, malformed, stale or otherwise unacceptable answer changes nothing, in whatever order answers arrive. Anyone may ask for an update. While any rate of a pool is more than 24 hours old, trades, deposits and withdrawals of chosen tokens in it are refused, withdrawals by share always work, and trades use exactly the recorded rates.",
  ["histories", "schedules", "inputs"],
  "All histories of updates, answers (proper quotes, failures, malformed, stale, future, reordered, incomplete and mismatched answers), waiting up to and past the expiry, moving a token between oracles, and uses of the pools; all orders in which answers arrive.",
  "Tests update once with a well-behaved oracle; an answer that is late, malformed or about something else, two updates in flight, and the exact moment of expiry are never combined.",
  [X + "rated_swap/rate.rs", X + "rated_swap/stnear_rate.rs", X + "rated_swap/linear_rate.rs", X + "rated_swap/nearx_rate.rs", X + "rated_swap/sfrax_rate.rs", X + "rated_swap/mod.rs", X + "lib.rs"],
  [("asking and recording", X + "lib.rs: update_token_rate, update_token_rate_callback"), ("answers", X + "rated_swap/*_rate.rs: set"), ("expiry", X + "rated_swap/mod.rs: assert_rates_valid; rate.rs: is_global_rate_valid")],
  "Four rated tokens of all four kinds in four pools; ten to fifteen kinds of answers per contract; histories and interleavings to the stated depth.")

P("E17", "Degen pools trade at fresh oracle prices and keep within their value limit",
  "The recorded price of a degen token changes only to what the configured oracle of its kind says about it in an answer that is recent enough, converted exactly, and each requested token with such an answer is updated whatever happens to the others. While a price of a pool has expired, trades, deposits and withdrawals of chosen tokens are refused and its value is not reported; withdrawals by share always work. No deposit or zap leaves a pool worth more than its limit at the recorded prices, and one that stays within it is accepted.",
  ["histories", "schedules", "inputs"],
  "All histories of single, batched and trade-triggered updates, every kind of answer of two oracles, waiting around the expiry, changes of the oracle configuration and of limits, and uses of two pools; all orders in which answers arrive.",
  "Tests use one answer per oracle and a fixed clock; batches in which one answer is stale or missing, tokens sharing an identifier, expiry at the exact moment and limits that prices move across need a systematic search.",
  [X + "degen_swap/degen.rs", X + "degen_swap/price_oracle.rs", X + "degen_swap/pyth_oracle.rs", X + "degen_swap/mod.rs", X + "oracle.rs", X + "pool_limit_info.rs", X + "pool.rs", X + "lib.rs"],
  [("single updates", X + "lib.rs: update_degen_token_price; degen_swap/*_oracle.rs: set_price"), ("batches", X + "degen_swap/*_oracle.rs: batch_update_degen_token_by_*"), ("expiry", X + "degen_swap/mod.rs: assert_degens_valid"), ("limits", X + "pool.rs: assert_tvl_not_exceed_limit")],
  "Four degen tokens (two per oracle, two sharing an identifier) in two pools; values compared up to two units of rounding; histories and interleavings to the stated depth.")

P("E14", "Accounts pay for exactly the storage they use, and get the rest back",
  "A storage deposit credits what was paid (for registration only: the minimum, the rest returned to the payer), a withdrawal pays out what was asked up to what is not in use, closing an empty account pays everything back, and no account but the owner's uses more than it has paid for. Creating a pool, registering or adding shares and pledging take from the attached NEAR exactly what the state grows by, return the rest, and are refused without effect when it is a yocto too little; a zap takes it from the storage deposit; what unregistering shares, ending a pledge or liquidation frees goes back to the same account exactly once. Nobody else's NEAR or storage deposit moves, and the exchange always holds what it owes.",
  ["histories", "schedules", "inputs"],
  "All histories of opening, paying, withdrawing, closing, registering, trading and pledging, with the attached NEAR plenty, exact and one yocto short, and all orders of answers to overlapping pledges.",
  "Storage is charged and returned in a dozen places with different rules; tests use amounts far from the boundary and never overlap pledges.",
  [X + "storage_impl.rs", X + "account_deposit.rs", X + "lib.rs", X + "multi_fungible_token.rs", X + "shadow_actions.rs", X + "donation.rs", X + "token_receiver.rs"],
  [("deposits", X + "storage_impl.rs: storage_deposit, storage_withdraw, storage_unregister"), ("accounts", X + "account_deposit.rs: assert_storage_usage, deposit_with_storage_check"), ("charges", X + "lib.rs: internal_check_storage"), ("pledges", X + "shadow_actions.rs: shadow_action, callback_on_shadow")],
  "Three users and an unregistered one, two pools, a set of boundary amounts; histories and interleavings to the stated depth.")

P("E29", "Nobody else's call takes anything from you",
  "No call signed by one account lowers another account's inner balances, lost-and-found entries, liquidity shares, pledges, storage deposit, NEAR or wallet balance, whatever account names its arguments mention and even when the caller poses as a token contract. The exceptions are the owner and guardians taking the exchange's fee shares, a guardian moving the owner's tokens to the owner, and the lending market's liquidation.",
  ["histories", "inputs"],
  "All ordered combinations of the user operations of four accounts and of hostile calls, to the stated depth.",
  "Tests check what happens to the caller; what happens to the others is hardly ever looked at.",
  [X + "lib.rs", X + "token_receiver.rs", X + "account_deposit.rs", X + "account_lostfound.rs", X + "multi_fungible_token.rs", X + "shadow_actions.rs", X + "donation.rs", X + "storage_impl.rs"],
  [("caller identity", X + "account_deposit.rs, multi_fungible_token.rs, shadow_actions.rs: env::predecessor_account_id"), ("deposits", X + "token_receiver.rs: ft_on_transfer")],
  "About a hundred operations, all pairs (triples in the thorough tier).")

P("E30", "Every question about the exchange has one answer",
  "Whatever has happened, the exchange's questions agree with each other: every page of a list, every batched answer and every detailed answer is what the single answers say, for pools, volumes, shares, deposits, registrations, lost-and-found entries, referrals, share averages, value limits, rates, prices, storage and ownership. Amounts at the common precision are the amounts, the rates and prices a pool reports are the ones on record, a share is priced by the pool's invariant (a plain stable pool's by its tokens), and a prediction given the current rates is the one given none. A rate or price is called valid exactly while it is, and what does not exist gets no answer.",
  ["histories", "inputs"],
  "All histories of trades, liquidity, waits and of operations that make every list grow and shrink, to the stated depth; in every state, every page of every list and the questions about every pool, account and token.",
  "Tests ask one question about one pool; wallets, indexers and the lending market ask the paged, batched and detailed ones, of lists in which entries have been removed.",
  [X + "views.rs", X + "multi_fungible_token.rs", X + "account_lostfound.rs", X + "unit_lpt_cumulative_infos.rs", X + "storage_impl.rs"],
  [("lists and pages", X + "views.rs: get_pools, get_tokens_paged, list_referrals, get_pool_limit_paged; account_lostfound.rs, unit_lpt_cumulative_infos.rs"), ("details", X + "views.rs: PoolInfo, StablePoolInfo, RatedPoolInfo, DegenPoolInfo, RatedTokenInfo, DegenTokenInfo")],
  "Five pools of all kinds; up to three entries in each list.")

P("E10", "An instant swap is the same trades, paid out in full, or nothing",
  "A token transfer that carries trades either is refused, returns the whole amount and changes nothing, or does exactly what the same trades do from an inner account holding that amount and pays every token left over, once and in full, to the sender or the recipient named (as NEAR if asked), touching no inner balance; it is accepted exactly when those trades are possible. With an echo message it is accepted only if the sender is on the secure list, or the token and the sender are on theirs, as the lists (with wildcards) stand now, and the outputs go back to the sender with that message; the lending contract may use it with one output only. Output that cannot be delivered, or that the receiver of an echo does not use, belongs to the recipient on the exchange's books.",
  ["inputs", "histories", "fault_sequences"],
  "A set of messages (by input and by output, chained, partial, with recipient, unwrapping, bounds and malformed) in all reached states and all kinds of pools, with every transfer outcome; all configurations of the three echo lists to the stated depth.",
  "Tests run a few messages with one expected number each; the virtual account, the recipients and the echo lists combine in ways nobody enumerates.",
  [X + "token_receiver.rs", X + "account_deposit.rs", X + "lib.rs", X + "client_echo_limit.rs"],
  [("instant actions", X + "token_receiver.rs: ft_on_transfer, internal_direct_actions"), ("payout", X + "account_deposit.rs: internal_send_tokens, internal_send_token_with_msg"), ("echo lists", X + "client_echo_limit.rs: assert_client_echo_valid")],
  "Differential: a twin account performs the same trades in a copy of each state. Finds the defect repaired by the commit listed in known-findings.txt.")

P("E27", "A hot zap is its trades and deposits of liquidity one by one, or nothing",
  "A transfer that carries a zap either is refused, returns the whole amount and changes nothing, or has exactly the effect of the same trades from an inner account holding that amount followed by the same additions of liquidity with their bounds: the same pools, volumes, fees and shares, with everything left over credited to the sender's inner account. It is accepted exactly when those steps are possible one by one, each with its bound stated, for a sender with an account.",
  ["inputs", "histories"],
  "A set of zaps (one or several pools of all kinds, chained, by output, short of a token, below a bound, above a value limit, malformed) in all states reached to the stated depth.",
  "Tests zap into one pool in one state.",
  [X + "token_receiver.rs", X + "lib.rs", X + "pool.rs", X + "pool_limit_info.rs"],
  [("zaps", X + "token_receiver.rs: ft_on_transfer"), ("additions", X + "lib.rs: add_liquidity, add_stable_liquidity"), ("value limit", X + "pool.rs: assert_tvl_not_exceed_limit")],
  "Differential against single calls in a copy of each state. The sender has storage to spare.")

P("E28", "A list of trades is its single trades in order, all or nothing",
  "Trading with a list of actions (swap, swap_by_output, execute_actions, execute_actions_in_va) has exactly the effect of its trades made one at a time, an open amount being the result of the trade before: the same pools, volumes, fees and inner balances, and if one of them is impossible or not covered nothing happens. Trades made with named amounts use these and nothing else of the account, and return all that is left.",
  ["inputs", "histories"],
  "A set of lists (linked and unlinked, through the same pool and several kinds of pools, by input and by output, uncovered, malformed, mixed) in all states reached to the stated depth.",
  "Tests check final balances of one or two lists.",
  [X + "lib.rs", X + "action.rs", X + "account_deposit.rs"],
  [("lists", X + "lib.rs: internal_execute_actions, execute_actions_in_va, swap, swap_by_output"), ("single trades", X + "lib.rs: internal_execute_action")],
  "Differential against single calls by a twin account in a copy of each state. Trading by output lends the output within the list until its input is taken.")

P("E18", "Amplification moves only as announced, and slowly",
  "The amplification of a stable or rated pool changes only while a ramp runs that the owner or a guardian started: at least a day long, started at least a day after the last change, to at most ten times as much or as little, within 1 to 999999. It moves linearly in time from its value at the start to the target and stays there; stopping freezes the value of that moment. Trades, quotes and deposits use the value of the moment, and starting or stopping a ramp moves no token or share.",
  ["histories", "schedules"],
  "All histories of starting, restarting and stopping ramps (upwards, downwards, too steep, too short, too early, out of range, by the wrong caller) and waiting to the moments around their start, middle and end, in two kinds of pools.",
  "Tests look at one ramp at a few moments; a ramp begun or stopped while another runs, and the exact ends, are combinations nobody samples.",
  [X + "stable_swap/mod.rs", X + "stable_swap/math.rs", X + "rated_swap/mod.rs", X + "rated_swap/math.rs", X + "owner.rs"],
  [("ramps", X + "stable_swap/mod.rs, rated_swap/mod.rs: ramp_amplification, stop_ramp_amplification"), ("interpolation", X + "stable_swap/math.rs, rated_swap/math.rs: compute_amp_factor"), ("who", X + "owner.rs: stable_swap_ramp_amp, stable_swap_stop_ramp_amp")],
  "Two pools; ten to fifteen ramp requests, six moments; histories to the stated depth.")

P("E19", "The reported average of a pool is its true time-weighted average",
  "For a registered pool, the average reported is the time-weighted average of the tokens per share since the oldest of sixty records, exactly up to rounding, whatever trades, deposits, withdrawals or zaps happened when and however often it was updated. It is reported, also to the lending market, only once sixty records exist, a new record is made at most once per interval, and registering, recording or reporting changes nothing else.",
  ["histories", "schedules"],
  "All histories of trades, deposits, withdrawals, zaps, donations, updates, changes of the interval and waiting (nothing, a moment, an interval, much longer), from pools with no records, almost enough and enough.",
  "An average is wrong only if something changed the pool between two moments without being counted; tests never combine every kind of change with every kind of pause.",
  [X + "unit_lpt_cumulative_infos.rs", X + "lib.rs", X + "token_receiver.rs", X + "views.rs", X + "owner.rs"],
  [("counting", X + "unit_lpt_cumulative_infos.rs: update"), ("when", X + "lib.rs: internal_update_unit_share_cumulative_info; token_receiver.rs"), ("reporting", X + "views.rs: get_unit_lpt_assets, get_pool_twap_info_view")],
  "While a pool holds more than one share. Two pools; intervals and pauses of a few sizes; histories to the stated depth. Finds the defect repaired by the commit listed in known-findings.txt.")

P("E24", "The protocol takes its share of the fees and nothing else",
  "Fee shares the exchange owns can be taken only by the owner or a guardian, no more than there are, for at most what they are worth, and only into the owner's inner account; from there the owner's tokens go only to the owner's wallet. A donation moves exactly the named shares or tokens of the caller to the protocol and nothing of anybody else. The protocol's share of fees never exceeds 80 percent, fees stay below 100 percent, and a referrer's part lies between nothing and all.",
  ["histories", "inputs", "fault_sequences"],
  "All histories of trades with and without referral, unbalanced deposits, taking fee shares (none, one, half, all, more; with bounds), owner withdrawals with transfers that fail, donations, changes of fees, referrers and of the owner.",
  "Tests take the fees once after one trade; who gets what after the owner or a fee changed, or a transfer failed, is left open.",
  [X + "owner.rs", X + "donation.rs", X + "lib.rs", X + "referral.rs", X + "pool.rs", X + "simple_pool.rs", X + "stable_swap/mod.rs"],
  [("taking fees", X + "owner.rs: remove_exchange_fee_liquidity, withdraw_owner_token"), ("donations", X + "donation.rs"), ("bounds", X + "owner.rs: modify_admin_fee, modify_total_fee; referral.rs")],
  "A simple and a stable pool; belongings of eight accounts compared after every step; histories to the stated depth.")

P("E26", "Pools are created valid, by whom may, and stay what they are",
  "A pool comes into being only with distinct tokens (two in a simple pool), a fee below 100 percent and, for the other kinds, matching decimals and an amplification in range and a call by the owner or a guardian; it gets the next number, holds nothing, and creation changes no other pool. Kind, tokens, decimals and amplification never change by trading or depositing, and the fee only by the owner or a guardian. A pool nobody funded refuses trades, and its first deposit must bring every token and gets all shares.",
  ["histories", "inputs"],
  "All histories of creations of the four kinds with valid and invalid parameters by four kinds of callers, first deposits (complete and not), trades and fee changes.",
  "Tests create a pool with one bad parameter each; the order of creations, and what else changes, is never looked at.",
  [X + "lib.rs", X + "pool.rs", X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "owner.rs"],
  [("creation", X + "lib.rs: add_simple_pool, add_stable_swap_pool, add_rated_swap_pool, add_degen_swap_pool"), ("parameters", X + "simple_pool.rs, stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs: new"), ("first deposit", X + "simple_pool.rs, stable_swap/mod.rs: add_liquidity, init")],
  "Fifty operations, all histories to the stated depth.")

P("E25", "An upgrade keeps everything, and only the owner can make one",
  "When the owner upgrades from any earlier release of the 1.9 series, at any moment, also with transfers or pledges in flight or paused, the upgrade succeeds, moves nothing, and every question the old release could answer has the same answer afterwards. Accounts in the oldest record formats keep their tokens, and after the upgrade everybody can release pledges, take out shares, tokens and lost tokens and close the account with exactly what is recorded. Nobody else can upgrade, migrate or initialise again.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of user operations before and after the upgrade and of receipts in flight across it, from the state each earlier published binary left; upgrades to the same code included.",
  "The one test upgrades an empty exchange; what a stored record means to the new code cannot be seen from tests that start fresh.",
  [X + "owner.rs", X + "legacy.rs", X + "account_deposit.rs", X + "lib.rs", X + "pool.rs", X + "simple_pool.rs", X + "stable_swap/mod.rs", X + "rated_swap/mod.rs", X + "degen_swap/mod.rs", X + "swap_volume.rs"],
  [("upgrading", X + "owner.rs: upgrade, migrate"), ("old records", X + "legacy.rs; account_deposit.rs: VAccount"), ("stored layouts", X + "lib.rs: Contract; pool.rs: Pool; shadow_actions.rs; unit_lpt_cumulative_infos.rs; pool_limit_info.rs")],
  "The state is produced by the published binaries in releases/; records of the two oldest account formats are written by the harness because no binary at hand writes them. Five releases (all seventeen in the thorough tier), also upgraded one after the other.")

F = "ref-farming/src/"

P("F01", "The farming contract always has the rewards it has promised",
  "At every moment the farming contract holds, of each reward token, exactly what its farms have not given out, what they gave out and nobody has taken, what fell to the beneficiary and what users were credited, counting withdrawals in flight. No farm gives out more than it received, the stakers together can never claim more than the farm has set aside for them, and the reported total per token is what the farms received.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of staking, unstaking, claiming by seed and by farm, withdrawing, funding, creating and clearing farms and waiting, with transfers that fail, one transaction at a time and with receipts in any order.",
  "Rounding, a farm that ends between two claims, everybody leaving and coming back, or a failed withdrawal in between make the sums differ; tests follow one farm with a few claims.",
  [F + "simple_farm.rs", F + "actions_of_reward.rs", F + "actions_of_seed.rs", F + "actions_of_farm.rs", F + "token_receiver.rs", F + "farmer.rs"],
  [("distribution", F + "simple_farm.rs: try_distribute, distribute, claim_user_reward"), ("funding", F + "token_receiver.rs: ft_on_transfer; simple_farm.rs: add_reward"), ("withdrawing", F + "actions_of_reward.rs: withdraw_reward, callback_post_withdraw_reward")],
  "Three to four farms of two seeds, three stakers, 24 operations; histories to the stated depth.")

P("F02", "Rewards are shared in proportion to stake and time",
  "At the end of each session since its start a farm gives out its reward per session until its rewards are used up, and each staker gets the share his stake has of all stakes at that moment, whoever claims when and however often; nothing while nobody stakes. Each gets this at most exactly and at least up to rounding, and what is told as claimable is part of it.",
  ["histories", "inputs"],
  "All histories of staking more and less, leaving, returning, claiming, funding, clearing and waiting parts of sessions, whole ones and past the end, with small and very large stakes.",
  "A wrong share shows only when stakes changed between two distributions in a particular order; tests compare one or two hand-computed numbers.",
  [F + "simple_farm.rs", F + "actions_of_reward.rs", F + "actions_of_seed.rs", F + "farmer.rs", F + "view.rs"],
  [("reward per seed", F + "simple_farm.rs: try_distribute, view_farmer_unclaimed_reward"), ("per user", F + "actions_of_reward.rs: claim_user_reward_from_farm"), ("claim before change", F + "actions_of_seed.rs: internal_seed_deposit, internal_seed_withdraw")],
  "Compared with an ideal farm in exact rational arithmetic kept next to the contract. Sessions that ended while a farm was distributed later count by the stakes of that moment, which is when every stake change distributes. Losing up to a few units per farm to rounding is allowed.")

P("F03", "Stakes are kept whole, and nobody touches what is somebody else's",
  "The farming contract holds exactly the stakes it has recorded, per seed and in total, plus withdrawals in flight. A call changes nobody's stake, rewards, storage deposit or wallet but the caller's (who may be given a storage deposit, and stakers the rewards of sessions that are over); and the caller's stake and wallet together, and rewards and wallet together, are the same before and after, changing by exactly the amount named. Only tokens sent without a message become a stake.",
  ["histories", "fault_sequences"],
  "All histories of all operations by five accounts, including unknown seeds, more than is staked, stakes below the minimum, unregistered accounts and transfers that fail.",
  "Tests check the balance they changed, not that everything else stayed as it was.",
  [F + "actions_of_seed.rs", F + "actions_of_reward.rs", F + "token_receiver.rs", F + "farmer.rs", F + "farm_seed.rs"],
  [("stakes", F + "actions_of_seed.rs: internal_seed_deposit, internal_seed_withdraw, withdraw_seed"), ("records", F + "farmer.rs: add_seed, sub_seed, add_reward, sub_reward")],
  "Two seeds (a token and a share of another contract), three stakers; histories to the stated depth.")

P("F04", "A failed withdrawal from farming loses nothing, whatever happens meanwhile",
  "When the transfer of withdrawn stake or rewards fails, the user has them again as stake or rewards, whatever was done between: other withdrawals, claims, stakes, the farm being cleared, everybody else leaving, or the user closing the account. The contract's own callbacks never fail.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of up to three operations in flight with every transfer failing or not, including closing and reopening accounts in between.",
  "A callback that fails loses the withdrawn tokens for good, and only in a particular order of receipts; tests run each transaction to its end before the next.",
  [F + "actions_of_seed.rs", F + "actions_of_reward.rs", F + "storage_impl.rs", F + "simple_farm.rs"],
  [("callbacks", F + "actions_of_seed.rs: callback_post_withdraw_ft_seed, callback_post_withdraw_mft_seed; actions_of_reward.rs: callback_post_withdraw_reward"), ("claims in callbacks", F + "simple_farm.rs: claim_user_reward")],
  "Finds the defects repaired by the commits listed in known-findings.txt.")

P("F05", "Farms are created by the owner, run on their terms and end for good",
  "Farms are created only by the owner, with a session length and a reward per session, get the next number of their seed, and their terms never change except that a farm without a start begins with its first reward. Rewards are taken only for a farm that is created or running and only in its reward token; a farm has ended exactly when everything was given out, only then can the owner clear it, what is unclaimed then falls to the beneficiary, and a cleared farm never changes again. A stake below the minimum of its seed is refused, and only the owner changes the minimum.",
  ["histories"],
  "All histories of creating farms (valid, without sessions, without reward, without enough NEAR, by others), funding with the right and wrong token, ending, clearing, staking around the minimum and changing owner.",
  "The order of funding, ending, claiming and clearing decides what a farm is; tests go through one order.",
  [F + "actions_of_farm.rs", F + "simple_farm.rs", F + "farm.rs", F + "farm_seed.rs", F + "owner.rs", F + "token_receiver.rs", F + "view.rs"],
  [("creation", F + "actions_of_farm.rs: create_simple_farm, internal_add_farm"), ("status", F + "simple_farm.rs: add_reward, distribute, move_to_clear, can_be_removed"), ("minimum", F + "token_receiver.rs; owner.rs: modify_seed_min_deposit")],
  "Finds the defect repaired by the commit listed in known-findings.txt.")

P("F06", "Farming: only the owner rules, and a pause stops everything but callbacks",
  "Setting the owner, creating and clearing farms, changing minimums, pausing, resuming and upgrading have an effect only for the owner; the contract's callbacks and migration only for the contract itself; and withdrawing stake, rewards or storage needs exactly one yoctoNEAR. While paused no user changes anything, tokens sent come back in full, withdrawals in flight are still restored, and the owner can always resume.",
  ["histories", "inputs", "schedules"],
  "Every privileged method by eight callers with several deposits, every callback forged with all kinds of results, in all states reached by changes of owner and pauses; pauses at every moment of operations in flight.",
  "Tests try one wrong caller per method in one state.",
  [F + "owner.rs", F + "actions_of_farm.rs", F + "actions_of_seed.rs", F + "actions_of_reward.rs", F + "token_receiver.rs", F + "storage_impl.rs"],
  [("owner", F + "owner.rs: assert_owner"), ("callbacks", F + "actions_of_seed.rs, actions_of_reward.rs: #[private]"), ("pause", F + "owner.rs: pause_contract, resume_contract")],
  "Histories to the stated depth.")

P("F07", "Farming accounts pay exactly for their storage and get it back",
  "An account's storage use is a fixed part plus an entry per seed staked and reward token held and a record per farm claimed from; what it has paid beyond that, and no more, can be withdrawn at any time. Opening an account takes the announced minimum at least (with registration only, exactly that), staking and claiming are refused if they do not fit while unstaking and withdrawing rewards never are, closing pays back everything, and the owner pays for a farm exactly what it takes. The contract always has the NEAR it owes.",
  ["histories", "inputs"],
  "All histories of deposits (too little, exact, for others, registration only), withdrawals (all, some, too much), closing and reopening accounts, stakes and claims with exactly enough storage and a yocto less, unstaking, withdrawing, clearing farms and dropping records.",
  "Exact fit is decided by which farms and tokens an account happened to meet before; tests try one or two.",
  [F + "storage_impl.rs", F + "farmer.rs", F + "actions_of_reward.rs", F + "actions_of_farm.rs", F + "token_receiver.rs"],
  [("accounts", F + "storage_impl.rs: storage_deposit, storage_withdraw, storage_unregister"), ("use", F + "farmer.rs: storage_usage, set_rps, remove_rps"), ("limits", F + "storage_impl.rs: assert_storage_usage")],
  "The exact use is not checked for an account that was closed with claim records left and opened again, which counts fewer of them.")

P("F08", "A staker can always leave with what is his, and come back",
  "Whatever farms there are and whoever did what before, any user can at any time unstake all stakes, take out all rewards, close the account and get the storage deposit back, exactly as recorded and as told claimable; and anybody can open an account (again), stake and leave again.",
  ["histories", "inputs"],
  "After every history of staking, claiming, withdrawing (all, some, the exact amount), closing and reopening, clearing farms, creating farms with extreme terms and waiting (up to a year), every user leaves and comes back in a copy of the state.",
  "A record left in the wrong state blocks somebody much later; tests never end by everybody leaving.",
  [F + "actions_of_seed.rs", F + "actions_of_reward.rs", F + "storage_impl.rs", F + "farmer.rs", F + "simple_farm.rs"],
  [("leaving", F + "actions_of_seed.rs: withdraw_seed; actions_of_reward.rs: withdraw_reward; storage_impl.rs: storage_unregister"), ("records", F + "farmer.rs: remove_rps, sub_reward"), ("terms", F + "simple_farm.rs: try_distribute")],
  "Tokens do not fail here (F04 covers that). Finds the defects repaired by the commits listed in known-findings.txt.")

P("F09", "A farming upgrade keeps everything, and only the owner can make one",
  "When the owner upgrades the farming contract from its published release, at any moment, paused or with withdrawals in flight, the upgrade succeeds, moves nothing, and every question has the same answer afterwards; all sums still add up and everybody can leave with what is recorded. Nobody else can upgrade, migrate or initialise again.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of operations before and after the upgrade and of receipts in flight across it, from a state made by the published binary.",
  "The one test upgrades an empty contract.",
  [F + "owner.rs", F + "legacy.rs", F + "lib.rs", F + "farmer.rs", F + "farm_seed.rs", F + "farm.rs", F + "simple_farm.rs"],
  [("upgrading", F + "owner.rs: upgrade, migrate"), ("stored layouts", F + "lib.rs: ContractData; farmer.rs, farm_seed.rs, farm.rs, simple_farm.rs")],
  "The published binary stores version 1.1.0 records; no binary at hand writes the older contract record (V0104).")

P("F10", "Every question about the farms has one answer",
  "Whatever has happened, the farming contract's questions agree with each other: a farm is listed exactly once, as running or as cleared, and every page of the lists of farms, cleared farms, seeds and reward tokens is what the single answers say. The farms of a seed are the running farms that name it, counts are lengths, and an account's listed rewards are what it is told for each token. The stakes of all accounts in a seed add up to the seed's, and nobody is told of more unclaimed reward than the farm has.",
  ["histories", "inputs"],
  "All histories of stakes, claims, withdrawals, deposits, new farms, cleanings and departures to the stated depth; in every state every page and every single question.",
  "Tests list one or two farms; nobody asks for pages of lists from which entries were removed.",
  [F + "view.rs", F + "farm.rs", F + "farm_seed.rs", F + "lib.rs"],
  [("lists and pages", F + "view.rs: list_farms, list_outdated_farms, list_seeds, list_seeds_info, list_rewards_info"), ("the farms of a seed", F + "farm_seed.rs; actions_of_farm.rs: internal_add_farm, internal_remove_farm_by_farm_id")],
  "Four accounts, two seeds, up to five farms.")
