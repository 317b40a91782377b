"""Generates properties.jsonl (single source for the property texts)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "state": state or [], "hook_needed": None}})
D="MahjongAI/draw.py"; DE="MahjongAI/decision.py"; PX="MahjongAI/process_xml.py"; AG="MahjongAI/utils/agari.py"
CO="MahjongAI/utils/constants.py"; ST="MahjongAI/state.py"; TU="MahjongAI/turn.py"; GI="MahjongAI/gameinfo.py"
DL="MahjongAI/utils/dataloader.py"; SH="MahjongAI/utils/shanten.py"; SL="MahjongAI/supervised_learning.py"
AGENTS=["MahjongAI/agents/transformer.py","MahjongAI/agents/transformer_conv.py","MahjongAI/agents/transformer_conv_large.py","MahjongAI/agents/transformer_conv_ordered.py"]

prop("C01","Call constructors and decoder are inverse",
 "For every legal chi, pon, added kan, open kan and closed kan, the call built from its description is classified as exactly that one kind of call and decodes to the same suit, number, called position, red-five content and caller direction. The hand tiles and called tile it reports are distinct physical tiles of exactly that meld, with the red five on the side the description says.",
 ["inputs"],"all suits, numbers, called positions, red placements and caller directions of all five call kinds",
 "test_naki samples 17 descriptions of several hundred; no test relates constructor and decoder in general.",
 [D],[("Naki.from_*_info / is_* / pattern_* / get_exposed",D)],["Naki.get_exposed()","Naki.from_who()"])
prop("C02","Every Tenhou meld code decodes to the physical tiles it denotes",
 "Every meld code a Tenhou log can contain is classified as exactly one kind of call, and the called tile and the tiles laid down from the caller's hand that it reports are exactly the physical tiles (of the 136) that Tenhou's meld format assigns to that code, including which copy is the red five. Kind, suit, number, called position, red-five flag and caller direction agree with those tiles.",
 ["inputs"],"all codes of the Tenhou meld format (chi, pon, added kan, open kan, closed kan), every copy selection",
 "Tests decode only codes the constructors themselves produced; log codes with other copies are never exercised.",
 [D],[("Naki.is_* / pattern_* / get_exposed",D)],["Naki.get_exposed()"])
prop("C03","Canonical call codes identify the same choice",
 "Two calls made by the same seat receive the same canonical code exactly when they are the same choice (same kind of call, same meld, same called tile from the same discarder and same use of the red five, ignoring interchangeable copies; for an added kan, how its pon was made does not matter), and the canonical code of a logged call equals the code the library builds for that choice. Canonicalising a canonical code changes nothing.",
 ["inputs"],"all Tenhou meld codes, pairwise against all constructible calls",
 "Tests canonicalise only codes that are already canonical.",
 [D],[("Naki._clean*",D),("convenient_naki_code",D)],["Naki.convenient_naki_code"])
prop("C04","Action numbering is in range and separates choices",
 "Every closed or added kan gets an own-turn action number in 3..70 and every chi, pon or open kan a reaction number in 2..153, never a slot reserved for pass, win or riichi. Two calls get the same number exactly when they are the same kind of call on the same called kind with the same tiles spent from the hand, up to interchangeable copies; asking a reaction number of an own-turn call, or the reverse, is rejected.",
 ["inputs"],"all pairs of legal calls, as built by the library and as decoded from logs",
 "No test calls the numbering functions at all; a collision needs two specific calls compared.",
 [D],[("get_during_turn_filter_idx / get_post_turn_filter_idx",D)],["action masks of the training tensors"])
prop("C05","Event tokens are unambiguous and decodable",
 "Every discard, call, riichi and new dora indicator is encoded as a non-zero token below 2^17 whose bit fields give back the event class, event kind, acting seat, tile, drawn-tile flag or action number of that event. Two events receive the same token only if they agree on all of those.",
 ["inputs"],"all players, tiles, flags and legal calls",
 "No test exercises the token functions.",
 [PX,CO,D],[("discard2idx / naki2idx / reach2idx / new_dora2idx",PX)],["encoding token sequence returned by process()"])
prop("C06","Reaction options are exactly the legal calls",
 "For any discard and any concealed hands, each other player is offered exactly the chi (next player only), pon and open kan that the tiles in that hand allow, every choice that spends different tiles (a red five instead of a plain one) once and no choice twice; the discarder is offered nothing. Each offered call carries the right seat, is in canonical form, not marked as taken, and names the discarder's direction.",
 ["inputs"],"all 34 tile kinds, red or plain, all discarders, all hands within four copies per kind and one red per suit",
 "No test calls the option generator; the red-five and three-copies cases are rare combinations.",
 [DE,D],[("decision_mask and the per-number masks",DE)],["decision_mask()","PostTurn.decisions"])
prop("C07","Own-turn options are exactly what the hand allows",
 "After every draw, the recorded options contain a closed kan for exactly the kinds held four times concealed, an added kan for exactly the kinds of the player's own pons whose fourth tile is now in the hand (in the canonical form a log would show), and riichi exactly when the hand is closed, riichi was not declared yet and the hand is at most one tile away from winning. None of them is marked as taken when created.",
 ["histories"],"every legal event history up to a draw, every hand",
 "No test runs process() on a log and inspects the options.",
 [PX,D],[("draw branch of process()",PX)],["DuringTurn.decisions"])
prop("C08","The taken option, and only it, is marked",
 "When a log shows a call, exactly the option of the calling player for that choice in the decision point just before it is marked as taken; when it shows a riichi declaration, exactly the riichi option of that turn is marked; no other event marks any option, and no other option is ever marked.",
 ["histories"],"every legal event history",
 "No test runs process() on a log and inspects the marks.",
 [PX,D],[("REACH and N branches of process()",PX)],["Decision.executed"])
prop("C09","Recorded states are snapshots",
 "The state recorded with a decision point describes the game at that moment: nothing that happens later in the log changes any value already recorded (hand, unseen tiles, rivers, melds, riichi, ippatsu, closed-hand flags, scores, dora list).",
 ["histories"],"every legal event history and every later event",
 "No test looks at a recorded state after further events.",
 [PX,ST],[("StateObject construction in process()",PX)],["StateObject fields after process() returns"])
prop("C10","Tile accounting follows the log",
 "At every recorded decision point the hand shown is exactly the deciding player's concealed tiles (with the red five counted both as a five and as red), the river shows exactly the kinds each player has discarded, and the unseen tiles shown to a player are exactly the 136 tiles minus that player's own tiles, all discards, all exposed melds and all dora indicators. A discard point shows the state as of the draw or call that opened the turn.",
 ["histories"],"every legal event history",
 "No test runs process() and inspects the tensors; aliasing and double counting need specific multi-event histories.",
 [PX,CO],[("event loop of process()",PX)],["StateObject.hand_tensor","StateObject.remaining_tiles_pov","StateObject.sutehai_tensors"])
prop("C11","Score and riichi bookkeeping follows the log",
 "At every recorded decision point the scores, riichi sticks and riichi flags reflect exactly the riichi declarations accepted so far (1000 points moved to the table each), the ippatsu flag is set exactly for players whose declaration has not been followed by a call or by their own next draw, and a hand is shown as closed exactly until that player's first call of another player's tile. The melds shown are those called so far (an added kan in place of its pon). Honba, dealer, rounds left and dora indicators are those of the log.",
 ["histories"],"every legal event history",
 "No test runs process() and inspects these fields.",
 [PX,ST],[("REACH, N, draw and DORA branches of process()",PX)],["StateObject.scores/kyotaku/reaches/ippatsu/is_menzen/dora/honba"])
prop("C12","Turn sequence, wall counter and token positions",
 "Processing emits one own-turn point per draw, one discard point and one reaction point per discard and one reaction point per added kan, in log order, plus one token per discard, call, accepted riichi and new dora indicator. Each point records how many tokens precede it and, as tiles left to draw, 70 minus the draws made so far.",
 ["histories"],"every legal event history",
 "No test runs process() and counts turns, tokens or the wall.",
 [PX,TU],[("event loop of process()",PX)],["halfturns and encoding tokens returned by process()"])
prop("C13","Logs are grouped into rounds and unsuitable games rejected",
 "A log is split into rounds at each round start with every later event of the round kept in order and game-level elements dropped; a disconnect, or a game against bots, without red fives, with flag 0x4 of the game type set (named kansaki in the code: no open tanyao) or for three players, is rejected with the invalid-game error and never yields samples; a missing or unreadable game-type element is an error.",
 ["inputs"],"all element sequences and all game-type values",
 "No test parses a log.",
 [PX,GI],[("_get_rounds and the rejection tests in process()",PX),("GameInfo",GI)],["process()","_get_rounds()"])
prop("C14","Win options come from the rules calculator on the true situation",
 "A win option is recorded exactly for the players for whom the rules calculator, given that player's tiles plus the winning tile, melds, dora indicators, seat and round winds and the true situation flags, accepts the hand; a player who has discarded the winning kind is never offered a ron, nor is the discarder. The evaluation leaves every hand unchanged.",
 ["inputs"],"all hands, meld sets, rivers, discarders and situation flags",
 "No test calls the evaluation; the arguments handed to the calculator are invisible in its result.",
 [AG],[("evaluate_ron / evaluate_tsumo / hand_tensor2strs",AG)],["AgariDecision list"])
prop("C15","Training masks and labels match the decision",
 "In every sample the action mask allows exactly the actions offered (plus pass where passing is possible, or exactly the kinds in hand for a discard), the label is the action actually taken or pass when none was, and the label is always allowed by the mask. Own-turn and reaction points without options yield no sample; among reactions, players are visited in turn order and those after the one who acted are skipped.",
 ["inputs"],"all turn lists, option sets and taken marks, for each of the four models",
 "test_tensor needs large sample data and is not run; labels are never compared with decisions.",
 AGENTS,[("TransformerTensorProcessor._build_*_tensor",AGENTS[3])],["action_mask_batch","y_tensor"])
prop("C16","Samples never see future events",
 "The event history fed to the network for a decision is exactly the tokens recorded before that decision, in order, padded with the empty token to 150; no token recorded at or after the decision appears in it.",
 ["inputs"],"all token sequences up to 150 and all decision positions, for each of the four models",
 "No test compares the history tensor with the token list.",
 AGENTS,[("masked_encoding_token_tensor in _build_*_tensor",AGENTS[3])],["encoding_tokens_batch"])
prop("C17","Features encode the recorded state faithfully",
 "The feature tensors of a sample contain exactly the recorded hand, unseen tiles, rivers, scores, dealer, rounds left, riichi, ippatsu and closed-hand flags, wall counter, sticks and honba of that decision's state, each at its fixed position, and samples, masks, labels and players stay aligned through batching.",
 ["inputs"],"all recorded states and all batches, for each of the four models",
 "test_tensor is not run and checks shapes only.",
 AGENTS,[("_convert_state_obj_to_tensors / stack_batches / prepare_batches",AGENTS[3])],["state_obj_tensor_batch"])
prop("C18","Event embedding uses the right tables",
 "For every token the library can emit, and for padding, the encoder looks up only rows that exist in its embedding tables, and exactly the embeddings that apply to that event (kind, tile for discards and dora, player, drawn-tile mark for discards from the draw, own-turn or reaction action) contribute to the event's vector; padding contributes nothing.",
 ["inputs"],"all tokens of C05 and padding, all players, all sequence positions, for each of the four models",
 "No test runs the encoder.",
 AGENTS,[("Encoder.forward",AGENTS[3])],["encoder output before attention"])
prop("C19","The network cannot choose an illegal action",
 "Whatever the network computes, the score of every action the mask forbids is replaced by -1e9 and the score of every allowed action is left as computed, for each of the three decision heads; a non-binary mask or one with no allowed action is rejected.",
 ["inputs"],"all logits, masks and heads, for each of the four models",
 "No test runs the decoder.",
 AGENTS,[("Decoder.forward",AGENTS[3])],["logits"])
prop("C20","Shanten search is side-effect free",
 "Computing the distance to a winning hand leaves the hand exactly as it was; every tentative removal of a set, pair or partial set is undone, so the search counters are back at their starting values too. The seven-pairs distance is six minus the number of kinds held at least twice and the thirteen-orphans distance is thirteen minus the number of terminal and honour kinds held, minus one if one of them is paired, never worse than the best known.",
 ["inputs"],"all hands of at most 14 tiles",
 "No test calls the solver.",
 [SH,CO],[("ShantenSolver",SH)],["ShantenSolver.solve()"])
prop("C21","The data loader delivers every usable game once",
 "One pass over a directory delivers the processed result of every usable file exactly once, in listing order, paired with its own tokens, in batches that are never empty and never larger than the batch size; invalid games are skipped, and after a reset the next pass starts over.",
 ["histories"],"all directory listings, batch sizes and patterns of invalid files",
 "No test uses the loader.",
 [DL],[("DataLoader.__next__ / reset",DL)],["iteration over DataLoader"])
prop("C22","Training resumes from the newest checkpoint of its own model",
 "Looking for a checkpoint returns the file with the highest iteration number among the checkpoints of exactly the requested model in the directory, together with that number, and (0, nothing) if there is none; checkpoints of other models whose names share a prefix are never chosen.",
 ["inputs"],"all directory contents and model names",
 "No test covers checkpoint discovery.",
 [SL],[("find_latest_checkpoint",SL)],["find_latest_checkpoint()"])
prop("C23","Game and round headers are decoded per the format",
 "Every game-type value decodes to the flags of the Tenhou format (bit 0 humans, 1 no red fives, 2 the flag named kansaki in the code, 3 two-wind length, 4 three players, 6 speed, and the level given by bits 5 and 7) and a game length of 4 or 8 rounds, and every round number (overtime rounds after the scheduled ones included) to the dealer seat and the round wind, and every round number of the scheduled game length also to the rounds left and, per seat, the number of dealer turns left.",
 ["inputs"],"all game-type values and all round numbers of the scheduled game length",
 "No test covers header decoding.",
 [GI,PX],[("GameInfo / RoundInfo",GI)],["GameInfo methods","RoundInfo fields"])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
