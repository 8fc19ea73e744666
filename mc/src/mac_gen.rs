// written by tools/gen_mac.py
use poker::{card, cards, Card, ParseCardError};

pub type Const = (&'static str, &'static [u8], &'static [Card]);
pub type Parsed = Result<Card, ParseCardError>;

pub static ONE: &[Const] = &[
    ("card!(Two, Spades)", &[0], &[card!(Two, Spades)]),
    ("card!(Two of Spades)", &[0], &[card!(Two of Spades)]),
    ("card!(Two, Hearts)", &[1], &[card!(Two, Hearts)]),
    ("card!(Two of Hearts)", &[1], &[card!(Two of Hearts)]),
    ("card!(Two, Diamonds)", &[2], &[card!(Two, Diamonds)]),
    ("card!(Two of Diamonds)", &[2], &[card!(Two of Diamonds)]),
    ("card!(Two, Clubs)", &[3], &[card!(Two, Clubs)]),
    ("card!(Two of Clubs)", &[3], &[card!(Two of Clubs)]),
    ("card!(Three, Spades)", &[4], &[card!(Three, Spades)]),
    ("card!(Three of Spades)", &[4], &[card!(Three of Spades)]),
    ("card!(Three, Hearts)", &[5], &[card!(Three, Hearts)]),
    ("card!(Three of Hearts)", &[5], &[card!(Three of Hearts)]),
    ("card!(Three, Diamonds)", &[6], &[card!(Three, Diamonds)]),
    ("card!(Three of Diamonds)", &[6], &[card!(Three of Diamonds)]),
    ("card!(Three, Clubs)", &[7], &[card!(Three, Clubs)]),
    ("card!(Three of Clubs)", &[7], &[card!(Three of Clubs)]),
    ("card!(Four, Spades)", &[8], &[card!(Four, Spades)]),
    ("card!(Four of Spades)", &[8], &[card!(Four of Spades)]),
    ("card!(Four, Hearts)", &[9], &[card!(Four, Hearts)]),
    ("card!(Four of Hearts)", &[9], &[card!(Four of Hearts)]),
    ("card!(Four, Diamonds)", &[10], &[card!(Four, Diamonds)]),
    ("card!(Four of Diamonds)", &[10], &[card!(Four of Diamonds)]),
    ("card!(Four, Clubs)", &[11], &[card!(Four, Clubs)]),
    ("card!(Four of Clubs)", &[11], &[card!(Four of Clubs)]),
    ("card!(Five, Spades)", &[12], &[card!(Five, Spades)]),
    ("card!(Five of Spades)", &[12], &[card!(Five of Spades)]),
    ("card!(Five, Hearts)", &[13], &[card!(Five, Hearts)]),
    ("card!(Five of Hearts)", &[13], &[card!(Five of Hearts)]),
    ("card!(Five, Diamonds)", &[14], &[card!(Five, Diamonds)]),
    ("card!(Five of Diamonds)", &[14], &[card!(Five of Diamonds)]),
    ("card!(Five, Clubs)", &[15], &[card!(Five, Clubs)]),
    ("card!(Five of Clubs)", &[15], &[card!(Five of Clubs)]),
    ("card!(Six, Spades)", &[16], &[card!(Six, Spades)]),
    ("card!(Six of Spades)", &[16], &[card!(Six of Spades)]),
    ("card!(Six, Hearts)", &[17], &[card!(Six, Hearts)]),
    ("card!(Six of Hearts)", &[17], &[card!(Six of Hearts)]),
    ("card!(Six, Diamonds)", &[18], &[card!(Six, Diamonds)]),
    ("card!(Six of Diamonds)", &[18], &[card!(Six of Diamonds)]),
    ("card!(Six, Clubs)", &[19], &[card!(Six, Clubs)]),
    ("card!(Six of Clubs)", &[19], &[card!(Six of Clubs)]),
    ("card!(Seven, Spades)", &[20], &[card!(Seven, Spades)]),
    ("card!(Seven of Spades)", &[20], &[card!(Seven of Spades)]),
    ("card!(Seven, Hearts)", &[21], &[card!(Seven, Hearts)]),
    ("card!(Seven of Hearts)", &[21], &[card!(Seven of Hearts)]),
    ("card!(Seven, Diamonds)", &[22], &[card!(Seven, Diamonds)]),
    ("card!(Seven of Diamonds)", &[22], &[card!(Seven of Diamonds)]),
    ("card!(Seven, Clubs)", &[23], &[card!(Seven, Clubs)]),
    ("card!(Seven of Clubs)", &[23], &[card!(Seven of Clubs)]),
    ("card!(Eight, Spades)", &[24], &[card!(Eight, Spades)]),
    ("card!(Eight of Spades)", &[24], &[card!(Eight of Spades)]),
    ("card!(Eight, Hearts)", &[25], &[card!(Eight, Hearts)]),
    ("card!(Eight of Hearts)", &[25], &[card!(Eight of Hearts)]),
    ("card!(Eight, Diamonds)", &[26], &[card!(Eight, Diamonds)]),
    ("card!(Eight of Diamonds)", &[26], &[card!(Eight of Diamonds)]),
    ("card!(Eight, Clubs)", &[27], &[card!(Eight, Clubs)]),
    ("card!(Eight of Clubs)", &[27], &[card!(Eight of Clubs)]),
    ("card!(Nine, Spades)", &[28], &[card!(Nine, Spades)]),
    ("card!(Nine of Spades)", &[28], &[card!(Nine of Spades)]),
    ("card!(Nine, Hearts)", &[29], &[card!(Nine, Hearts)]),
    ("card!(Nine of Hearts)", &[29], &[card!(Nine of Hearts)]),
    ("card!(Nine, Diamonds)", &[30], &[card!(Nine, Diamonds)]),
    ("card!(Nine of Diamonds)", &[30], &[card!(Nine of Diamonds)]),
    ("card!(Nine, Clubs)", &[31], &[card!(Nine, Clubs)]),
    ("card!(Nine of Clubs)", &[31], &[card!(Nine of Clubs)]),
    ("card!(Ten, Spades)", &[32], &[card!(Ten, Spades)]),
    ("card!(Ten of Spades)", &[32], &[card!(Ten of Spades)]),
    ("card!(Ten, Hearts)", &[33], &[card!(Ten, Hearts)]),
    ("card!(Ten of Hearts)", &[33], &[card!(Ten of Hearts)]),
    ("card!(Ten, Diamonds)", &[34], &[card!(Ten, Diamonds)]),
    ("card!(Ten of Diamonds)", &[34], &[card!(Ten of Diamonds)]),
    ("card!(Ten, Clubs)", &[35], &[card!(Ten, Clubs)]),
    ("card!(Ten of Clubs)", &[35], &[card!(Ten of Clubs)]),
    ("card!(Jack, Spades)", &[36], &[card!(Jack, Spades)]),
    ("card!(Jack of Spades)", &[36], &[card!(Jack of Spades)]),
    ("card!(Jack, Hearts)", &[37], &[card!(Jack, Hearts)]),
    ("card!(Jack of Hearts)", &[37], &[card!(Jack of Hearts)]),
    ("card!(Jack, Diamonds)", &[38], &[card!(Jack, Diamonds)]),
    ("card!(Jack of Diamonds)", &[38], &[card!(Jack of Diamonds)]),
    ("card!(Jack, Clubs)", &[39], &[card!(Jack, Clubs)]),
    ("card!(Jack of Clubs)", &[39], &[card!(Jack of Clubs)]),
    ("card!(Queen, Spades)", &[40], &[card!(Queen, Spades)]),
    ("card!(Queen of Spades)", &[40], &[card!(Queen of Spades)]),
    ("card!(Queen, Hearts)", &[41], &[card!(Queen, Hearts)]),
    ("card!(Queen of Hearts)", &[41], &[card!(Queen of Hearts)]),
    ("card!(Queen, Diamonds)", &[42], &[card!(Queen, Diamonds)]),
    ("card!(Queen of Diamonds)", &[42], &[card!(Queen of Diamonds)]),
    ("card!(Queen, Clubs)", &[43], &[card!(Queen, Clubs)]),
    ("card!(Queen of Clubs)", &[43], &[card!(Queen of Clubs)]),
    ("card!(King, Spades)", &[44], &[card!(King, Spades)]),
    ("card!(King of Spades)", &[44], &[card!(King of Spades)]),
    ("card!(King, Hearts)", &[45], &[card!(King, Hearts)]),
    ("card!(King of Hearts)", &[45], &[card!(King of Hearts)]),
    ("card!(King, Diamonds)", &[46], &[card!(King, Diamonds)]),
    ("card!(King of Diamonds)", &[46], &[card!(King of Diamonds)]),
    ("card!(King, Clubs)", &[47], &[card!(King, Clubs)]),
    ("card!(King of Clubs)", &[47], &[card!(King of Clubs)]),
    ("card!(Ace, Spades)", &[48], &[card!(Ace, Spades)]),
    ("card!(Ace of Spades)", &[48], &[card!(Ace of Spades)]),
    ("card!(Ace, Hearts)", &[49], &[card!(Ace, Hearts)]),
    ("card!(Ace of Hearts)", &[49], &[card!(Ace of Hearts)]),
    ("card!(Ace, Diamonds)", &[50], &[card!(Ace, Diamonds)]),
    ("card!(Ace of Diamonds)", &[50], &[card!(Ace of Diamonds)]),
    ("card!(Ace, Clubs)", &[51], &[card!(Ace, Clubs)]),
    ("card!(Ace of Clubs)", &[51], &[card!(Ace of Clubs)]),
    ("cards!(Two, Spades)", &[0], &cards!(Two, Spades)),
    ("cards!(Two, Spades;)", &[0], &cards!(Two, Spades;)),
    ("cards!(Two of Spades)", &[0], &cards!(Two of Spades)),
    ("cards!(Two of Spades,)", &[0], &cards!(Two of Spades,)),
    ("cards!(Two, Hearts)", &[1], &cards!(Two, Hearts)),
    ("cards!(Two, Hearts;)", &[1], &cards!(Two, Hearts;)),
    ("cards!(Two of Hearts)", &[1], &cards!(Two of Hearts)),
    ("cards!(Two of Hearts,)", &[1], &cards!(Two of Hearts,)),
    ("cards!(Two, Diamonds)", &[2], &cards!(Two, Diamonds)),
    ("cards!(Two, Diamonds;)", &[2], &cards!(Two, Diamonds;)),
    ("cards!(Two of Diamonds)", &[2], &cards!(Two of Diamonds)),
    ("cards!(Two of Diamonds,)", &[2], &cards!(Two of Diamonds,)),
    ("cards!(Two, Clubs)", &[3], &cards!(Two, Clubs)),
    ("cards!(Two, Clubs;)", &[3], &cards!(Two, Clubs;)),
    ("cards!(Two of Clubs)", &[3], &cards!(Two of Clubs)),
    ("cards!(Two of Clubs,)", &[3], &cards!(Two of Clubs,)),
    ("cards!(Three, Spades)", &[4], &cards!(Three, Spades)),
    ("cards!(Three, Spades;)", &[4], &cards!(Three, Spades;)),
    ("cards!(Three of Spades)", &[4], &cards!(Three of Spades)),
    ("cards!(Three of Spades,)", &[4], &cards!(Three of Spades,)),
    ("cards!(Three, Hearts)", &[5], &cards!(Three, Hearts)),
    ("cards!(Three, Hearts;)", &[5], &cards!(Three, Hearts;)),
    ("cards!(Three of Hearts)", &[5], &cards!(Three of Hearts)),
    ("cards!(Three of Hearts,)", &[5], &cards!(Three of Hearts,)),
    ("cards!(Three, Diamonds)", &[6], &cards!(Three, Diamonds)),
    ("cards!(Three, Diamonds;)", &[6], &cards!(Three, Diamonds;)),
    ("cards!(Three of Diamonds)", &[6], &cards!(Three of Diamonds)),
    ("cards!(Three of Diamonds,)", &[6], &cards!(Three of Diamonds,)),
    ("cards!(Three, Clubs)", &[7], &cards!(Three, Clubs)),
    ("cards!(Three, Clubs;)", &[7], &cards!(Three, Clubs;)),
    ("cards!(Three of Clubs)", &[7], &cards!(Three of Clubs)),
    ("cards!(Three of Clubs,)", &[7], &cards!(Three of Clubs,)),
    ("cards!(Four, Spades)", &[8], &cards!(Four, Spades)),
    ("cards!(Four, Spades;)", &[8], &cards!(Four, Spades;)),
    ("cards!(Four of Spades)", &[8], &cards!(Four of Spades)),
    ("cards!(Four of Spades,)", &[8], &cards!(Four of Spades,)),
    ("cards!(Four, Hearts)", &[9], &cards!(Four, Hearts)),
    ("cards!(Four, Hearts;)", &[9], &cards!(Four, Hearts;)),
    ("cards!(Four of Hearts)", &[9], &cards!(Four of Hearts)),
    ("cards!(Four of Hearts,)", &[9], &cards!(Four of Hearts,)),
    ("cards!(Four, Diamonds)", &[10], &cards!(Four, Diamonds)),
    ("cards!(Four, Diamonds;)", &[10], &cards!(Four, Diamonds;)),
    ("cards!(Four of Diamonds)", &[10], &cards!(Four of Diamonds)),
    ("cards!(Four of Diamonds,)", &[10], &cards!(Four of Diamonds,)),
    ("cards!(Four, Clubs)", &[11], &cards!(Four, Clubs)),
    ("cards!(Four, Clubs;)", &[11], &cards!(Four, Clubs;)),
    ("cards!(Four of Clubs)", &[11], &cards!(Four of Clubs)),
    ("cards!(Four of Clubs,)", &[11], &cards!(Four of Clubs,)),
    ("cards!(Five, Spades)", &[12], &cards!(Five, Spades)),
    ("cards!(Five, Spades;)", &[12], &cards!(Five, Spades;)),
    ("cards!(Five of Spades)", &[12], &cards!(Five of Spades)),
    ("cards!(Five of Spades,)", &[12], &cards!(Five of Spades,)),
    ("cards!(Five, Hearts)", &[13], &cards!(Five, Hearts)),
    ("cards!(Five, Hearts;)", &[13], &cards!(Five, Hearts;)),
    ("cards!(Five of Hearts)", &[13], &cards!(Five of Hearts)),
    ("cards!(Five of Hearts,)", &[13], &cards!(Five of Hearts,)),
    ("cards!(Five, Diamonds)", &[14], &cards!(Five, Diamonds)),
    ("cards!(Five, Diamonds;)", &[14], &cards!(Five, Diamonds;)),
    ("cards!(Five of Diamonds)", &[14], &cards!(Five of Diamonds)),
    ("cards!(Five of Diamonds,)", &[14], &cards!(Five of Diamonds,)),
    ("cards!(Five, Clubs)", &[15], &cards!(Five, Clubs)),
    ("cards!(Five, Clubs;)", &[15], &cards!(Five, Clubs;)),
    ("cards!(Five of Clubs)", &[15], &cards!(Five of Clubs)),
    ("cards!(Five of Clubs,)", &[15], &cards!(Five of Clubs,)),
    ("cards!(Six, Spades)", &[16], &cards!(Six, Spades)),
    ("cards!(Six, Spades;)", &[16], &cards!(Six, Spades;)),
    ("cards!(Six of Spades)", &[16], &cards!(Six of Spades)),
    ("cards!(Six of Spades,)", &[16], &cards!(Six of Spades,)),
    ("cards!(Six, Hearts)", &[17], &cards!(Six, Hearts)),
    ("cards!(Six, Hearts;)", &[17], &cards!(Six, Hearts;)),
    ("cards!(Six of Hearts)", &[17], &cards!(Six of Hearts)),
    ("cards!(Six of Hearts,)", &[17], &cards!(Six of Hearts,)),
    ("cards!(Six, Diamonds)", &[18], &cards!(Six, Diamonds)),
    ("cards!(Six, Diamonds;)", &[18], &cards!(Six, Diamonds;)),
    ("cards!(Six of Diamonds)", &[18], &cards!(Six of Diamonds)),
    ("cards!(Six of Diamonds,)", &[18], &cards!(Six of Diamonds,)),
    ("cards!(Six, Clubs)", &[19], &cards!(Six, Clubs)),
    ("cards!(Six, Clubs;)", &[19], &cards!(Six, Clubs;)),
    ("cards!(Six of Clubs)", &[19], &cards!(Six of Clubs)),
    ("cards!(Six of Clubs,)", &[19], &cards!(Six of Clubs,)),
    ("cards!(Seven, Spades)", &[20], &cards!(Seven, Spades)),
    ("cards!(Seven, Spades;)", &[20], &cards!(Seven, Spades;)),
    ("cards!(Seven of Spades)", &[20], &cards!(Seven of Spades)),
    ("cards!(Seven of Spades,)", &[20], &cards!(Seven of Spades,)),
    ("cards!(Seven, Hearts)", &[21], &cards!(Seven, Hearts)),
    ("cards!(Seven, Hearts;)", &[21], &cards!(Seven, Hearts;)),
    ("cards!(Seven of Hearts)", &[21], &cards!(Seven of Hearts)),
    ("cards!(Seven of Hearts,)", &[21], &cards!(Seven of Hearts,)),
    ("cards!(Seven, Diamonds)", &[22], &cards!(Seven, Diamonds)),
    ("cards!(Seven, Diamonds;)", &[22], &cards!(Seven, Diamonds;)),
    ("cards!(Seven of Diamonds)", &[22], &cards!(Seven of Diamonds)),
    ("cards!(Seven of Diamonds,)", &[22], &cards!(Seven of Diamonds,)),
    ("cards!(Seven, Clubs)", &[23], &cards!(Seven, Clubs)),
    ("cards!(Seven, Clubs;)", &[23], &cards!(Seven, Clubs;)),
    ("cards!(Seven of Clubs)", &[23], &cards!(Seven of Clubs)),
    ("cards!(Seven of Clubs,)", &[23], &cards!(Seven of Clubs,)),
    ("cards!(Eight, Spades)", &[24], &cards!(Eight, Spades)),
    ("cards!(Eight, Spades;)", &[24], &cards!(Eight, Spades;)),
    ("cards!(Eight of Spades)", &[24], &cards!(Eight of Spades)),
    ("cards!(Eight of Spades,)", &[24], &cards!(Eight of Spades,)),
    ("cards!(Eight, Hearts)", &[25], &cards!(Eight, Hearts)),
    ("cards!(Eight, Hearts;)", &[25], &cards!(Eight, Hearts;)),
    ("cards!(Eight of Hearts)", &[25], &cards!(Eight of Hearts)),
    ("cards!(Eight of Hearts,)", &[25], &cards!(Eight of Hearts,)),
    ("cards!(Eight, Diamonds)", &[26], &cards!(Eight, Diamonds)),
    ("cards!(Eight, Diamonds;)", &[26], &cards!(Eight, Diamonds;)),
    ("cards!(Eight of Diamonds)", &[26], &cards!(Eight of Diamonds)),
    ("cards!(Eight of Diamonds,)", &[26], &cards!(Eight of Diamonds,)),
    ("cards!(Eight, Clubs)", &[27], &cards!(Eight, Clubs)),
    ("cards!(Eight, Clubs;)", &[27], &cards!(Eight, Clubs;)),
    ("cards!(Eight of Clubs)", &[27], &cards!(Eight of Clubs)),
    ("cards!(Eight of Clubs,)", &[27], &cards!(Eight of Clubs,)),
    ("cards!(Nine, Spades)", &[28], &cards!(Nine, Spades)),
    ("cards!(Nine, Spades;)", &[28], &cards!(Nine, Spades;)),
    ("cards!(Nine of Spades)", &[28], &cards!(Nine of Spades)),
    ("cards!(Nine of Spades,)", &[28], &cards!(Nine of Spades,)),
    ("cards!(Nine, Hearts)", &[29], &cards!(Nine, Hearts)),
    ("cards!(Nine, Hearts;)", &[29], &cards!(Nine, Hearts;)),
    ("cards!(Nine of Hearts)", &[29], &cards!(Nine of Hearts)),
    ("cards!(Nine of Hearts,)", &[29], &cards!(Nine of Hearts,)),
    ("cards!(Nine, Diamonds)", &[30], &cards!(Nine, Diamonds)),
    ("cards!(Nine, Diamonds;)", &[30], &cards!(Nine, Diamonds;)),
    ("cards!(Nine of Diamonds)", &[30], &cards!(Nine of Diamonds)),
    ("cards!(Nine of Diamonds,)", &[30], &cards!(Nine of Diamonds,)),
    ("cards!(Nine, Clubs)", &[31], &cards!(Nine, Clubs)),
    ("cards!(Nine, Clubs;)", &[31], &cards!(Nine, Clubs;)),
    ("cards!(Nine of Clubs)", &[31], &cards!(Nine of Clubs)),
    ("cards!(Nine of Clubs,)", &[31], &cards!(Nine of Clubs,)),
    ("cards!(Ten, Spades)", &[32], &cards!(Ten, Spades)),
    ("cards!(Ten, Spades;)", &[32], &cards!(Ten, Spades;)),
    ("cards!(Ten of Spades)", &[32], &cards!(Ten of Spades)),
    ("cards!(Ten of Spades,)", &[32], &cards!(Ten of Spades,)),
    ("cards!(Ten, Hearts)", &[33], &cards!(Ten, Hearts)),
    ("cards!(Ten, Hearts;)", &[33], &cards!(Ten, Hearts;)),
    ("cards!(Ten of Hearts)", &[33], &cards!(Ten of Hearts)),
    ("cards!(Ten of Hearts,)", &[33], &cards!(Ten of Hearts,)),
    ("cards!(Ten, Diamonds)", &[34], &cards!(Ten, Diamonds)),
    ("cards!(Ten, Diamonds;)", &[34], &cards!(Ten, Diamonds;)),
    ("cards!(Ten of Diamonds)", &[34], &cards!(Ten of Diamonds)),
    ("cards!(Ten of Diamonds,)", &[34], &cards!(Ten of Diamonds,)),
    ("cards!(Ten, Clubs)", &[35], &cards!(Ten, Clubs)),
    ("cards!(Ten, Clubs;)", &[35], &cards!(Ten, Clubs;)),
    ("cards!(Ten of Clubs)", &[35], &cards!(Ten of Clubs)),
    ("cards!(Ten of Clubs,)", &[35], &cards!(Ten of Clubs,)),
    ("cards!(Jack, Spades)", &[36], &cards!(Jack, Spades)),
    ("cards!(Jack, Spades;)", &[36], &cards!(Jack, Spades;)),
    ("cards!(Jack of Spades)", &[36], &cards!(Jack of Spades)),
    ("cards!(Jack of Spades,)", &[36], &cards!(Jack of Spades,)),
    ("cards!(Jack, Hearts)", &[37], &cards!(Jack, Hearts)),
    ("cards!(Jack, Hearts;)", &[37], &cards!(Jack, Hearts;)),
    ("cards!(Jack of Hearts)", &[37], &cards!(Jack of Hearts)),
    ("cards!(Jack of Hearts,)", &[37], &cards!(Jack of Hearts,)),
    ("cards!(Jack, Diamonds)", &[38], &cards!(Jack, Diamonds)),
    ("cards!(Jack, Diamonds;)", &[38], &cards!(Jack, Diamonds;)),
    ("cards!(Jack of Diamonds)", &[38], &cards!(Jack of Diamonds)),
    ("cards!(Jack of Diamonds,)", &[38], &cards!(Jack of Diamonds,)),
    ("cards!(Jack, Clubs)", &[39], &cards!(Jack, Clubs)),
    ("cards!(Jack, Clubs;)", &[39], &cards!(Jack, Clubs;)),
    ("cards!(Jack of Clubs)", &[39], &cards!(Jack of Clubs)),
    ("cards!(Jack of Clubs,)", &[39], &cards!(Jack of Clubs,)),
    ("cards!(Queen, Spades)", &[40], &cards!(Queen, Spades)),
    ("cards!(Queen, Spades;)", &[40], &cards!(Queen, Spades;)),
    ("cards!(Queen of Spades)", &[40], &cards!(Queen of Spades)),
    ("cards!(Queen of Spades,)", &[40], &cards!(Queen of Spades,)),
    ("cards!(Queen, Hearts)", &[41], &cards!(Queen, Hearts)),
    ("cards!(Queen, Hearts;)", &[41], &cards!(Queen, Hearts;)),
    ("cards!(Queen of Hearts)", &[41], &cards!(Queen of Hearts)),
    ("cards!(Queen of Hearts,)", &[41], &cards!(Queen of Hearts,)),
    ("cards!(Queen, Diamonds)", &[42], &cards!(Queen, Diamonds)),
    ("cards!(Queen, Diamonds;)", &[42], &cards!(Queen, Diamonds;)),
    ("cards!(Queen of Diamonds)", &[42], &cards!(Queen of Diamonds)),
    ("cards!(Queen of Diamonds,)", &[42], &cards!(Queen of Diamonds,)),
    ("cards!(Queen, Clubs)", &[43], &cards!(Queen, Clubs)),
    ("cards!(Queen, Clubs;)", &[43], &cards!(Queen, Clubs;)),
    ("cards!(Queen of Clubs)", &[43], &cards!(Queen of Clubs)),
    ("cards!(Queen of Clubs,)", &[43], &cards!(Queen of Clubs,)),
    ("cards!(King, Spades)", &[44], &cards!(King, Spades)),
    ("cards!(King, Spades;)", &[44], &cards!(King, Spades;)),
    ("cards!(King of Spades)", &[44], &cards!(King of Spades)),
    ("cards!(King of Spades,)", &[44], &cards!(King of Spades,)),
    ("cards!(King, Hearts)", &[45], &cards!(King, Hearts)),
    ("cards!(King, Hearts;)", &[45], &cards!(King, Hearts;)),
    ("cards!(King of Hearts)", &[45], &cards!(King of Hearts)),
    ("cards!(King of Hearts,)", &[45], &cards!(King of Hearts,)),
    ("cards!(King, Diamonds)", &[46], &cards!(King, Diamonds)),
    ("cards!(King, Diamonds;)", &[46], &cards!(King, Diamonds;)),
    ("cards!(King of Diamonds)", &[46], &cards!(King of Diamonds)),
    ("cards!(King of Diamonds,)", &[46], &cards!(King of Diamonds,)),
    ("cards!(King, Clubs)", &[47], &cards!(King, Clubs)),
    ("cards!(King, Clubs;)", &[47], &cards!(King, Clubs;)),
    ("cards!(King of Clubs)", &[47], &cards!(King of Clubs)),
    ("cards!(King of Clubs,)", &[47], &cards!(King of Clubs,)),
    ("cards!(Ace, Spades)", &[48], &cards!(Ace, Spades)),
    ("cards!(Ace, Spades;)", &[48], &cards!(Ace, Spades;)),
    ("cards!(Ace of Spades)", &[48], &cards!(Ace of Spades)),
    ("cards!(Ace of Spades,)", &[48], &cards!(Ace of Spades,)),
    ("cards!(Ace, Hearts)", &[49], &cards!(Ace, Hearts)),
    ("cards!(Ace, Hearts;)", &[49], &cards!(Ace, Hearts;)),
    ("cards!(Ace of Hearts)", &[49], &cards!(Ace of Hearts)),
    ("cards!(Ace of Hearts,)", &[49], &cards!(Ace of Hearts,)),
    ("cards!(Ace, Diamonds)", &[50], &cards!(Ace, Diamonds)),
    ("cards!(Ace, Diamonds;)", &[50], &cards!(Ace, Diamonds;)),
    ("cards!(Ace of Diamonds)", &[50], &cards!(Ace of Diamonds)),
    ("cards!(Ace of Diamonds,)", &[50], &cards!(Ace of Diamonds,)),
    ("cards!(Ace, Clubs)", &[51], &cards!(Ace, Clubs)),
    ("cards!(Ace, Clubs;)", &[51], &cards!(Ace, Clubs;)),
    ("cards!(Ace of Clubs)", &[51], &cards!(Ace of Clubs)),
    ("cards!(Ace of Clubs,)", &[51], &cards!(Ace of Clubs,)),
];

pub static PAIRS_NAMES: &[Const] = &[
    ("cards!(Two, Spades; Two, Spades)", &[0,0], &cards!(Two, Spades; Two, Spades)),
    ("cards!(Two, Spades; Two, Hearts;)", &[0,1], &cards!(Two, Spades; Two, Hearts;)),
    ("cards!(Two, Spades; Two, Diamonds)", &[0,2], &cards!(Two, Spades; Two, Diamonds)),
    ("cards!(Two, Spades; Two, Clubs;)", &[0,3], &cards!(Two, Spades; Two, Clubs;)),
    ("cards!(Two, Spades; Three, Spades)", &[0,4], &cards!(Two, Spades; Three, Spades)),
    ("cards!(Two, Spades; Three, Hearts;)", &[0,5], &cards!(Two, Spades; Three, Hearts;)),
    ("cards!(Two, Spades; Three, Diamonds)", &[0,6], &cards!(Two, Spades; Three, Diamonds)),
    ("cards!(Two, Spades; Three, Clubs;)", &[0,7], &cards!(Two, Spades; Three, Clubs;)),
    ("cards!(Two, Spades; Four, Spades)", &[0,8], &cards!(Two, Spades; Four, Spades)),
    ("cards!(Two, Spades; Four, Hearts;)", &[0,9], &cards!(Two, Spades; Four, Hearts;)),
    ("cards!(Two, Spades; Four, Diamonds)", &[0,10], &cards!(Two, Spades; Four, Diamonds)),
    ("cards!(Two, Spades; Four, Clubs;)", &[0,11], &cards!(Two, Spades; Four, Clubs;)),
    ("cards!(Two, Spades; Five, Spades)", &[0,12], &cards!(Two, Spades; Five, Spades)),
    ("cards!(Two, Spades; Five, Hearts;)", &[0,13], &cards!(Two, Spades; Five, Hearts;)),
    ("cards!(Two, Spades; Five, Diamonds)", &[0,14], &cards!(Two, Spades; Five, Diamonds)),
    ("cards!(Two, Spades; Five, Clubs;)", &[0,15], &cards!(Two, Spades; Five, Clubs;)),
    ("cards!(Two, Spades; Six, Spades)", &[0,16], &cards!(Two, Spades; Six, Spades)),
    ("cards!(Two, Spades; Six, Hearts;)", &[0,17], &cards!(Two, Spades; Six, Hearts;)),
    ("cards!(Two, Spades; Six, Diamonds)", &[0,18], &cards!(Two, Spades; Six, Diamonds)),
    ("cards!(Two, Spades; Six, Clubs;)", &[0,19], &cards!(Two, Spades; Six, Clubs;)),
    ("cards!(Two, Spades; Seven, Spades)", &[0,20], &cards!(Two, Spades; Seven, Spades)),
    ("cards!(Two, Spades; Seven, Hearts;)", &[0,21], &cards!(Two, Spades; Seven, Hearts;)),
    ("cards!(Two, Spades; Seven, Diamonds)", &[0,22], &cards!(Two, Spades; Seven, Diamonds)),
    ("cards!(Two, Spades; Seven, Clubs;)", &[0,23], &cards!(Two, Spades; Seven, Clubs;)),
    ("cards!(Two, Spades; Eight, Spades)", &[0,24], &cards!(Two, Spades; Eight, Spades)),
    ("cards!(Two, Spades; Eight, Hearts;)", &[0,25], &cards!(Two, Spades; Eight, Hearts;)),
    ("cards!(Two, Spades; Eight, Diamonds)", &[0,26], &cards!(Two, Spades; Eight, Diamonds)),
    ("cards!(Two, Spades; Eight, Clubs;)", &[0,27], &cards!(Two, Spades; Eight, Clubs;)),
    ("cards!(Two, Spades; Nine, Spades)", &[0,28], &cards!(Two, Spades; Nine, Spades)),
    ("cards!(Two, Spades; Nine, Hearts;)", &[0,29], &cards!(Two, Spades; Nine, Hearts;)),
    ("cards!(Two, Spades; Nine, Diamonds)", &[0,30], &cards!(Two, Spades; Nine, Diamonds)),
    ("cards!(Two, Spades; Nine, Clubs;)", &[0,31], &cards!(Two, Spades; Nine, Clubs;)),
    ("cards!(Two, Spades; Ten, Spades)", &[0,32], &cards!(Two, Spades; Ten, Spades)),
    ("cards!(Two, Spades; Ten, Hearts;)", &[0,33], &cards!(Two, Spades; Ten, Hearts;)),
    ("cards!(Two, Spades; Ten, Diamonds)", &[0,34], &cards!(Two, Spades; Ten, Diamonds)),
    ("cards!(Two, Spades; Ten, Clubs;)", &[0,35], &cards!(Two, Spades; Ten, Clubs;)),
    ("cards!(Two, Spades; Jack, Spades)", &[0,36], &cards!(Two, Spades; Jack, Spades)),
    ("cards!(Two, Spades; Jack, Hearts;)", &[0,37], &cards!(Two, Spades; Jack, Hearts;)),
    ("cards!(Two, Spades; Jack, Diamonds)", &[0,38], &cards!(Two, Spades; Jack, Diamonds)),
    ("cards!(Two, Spades; Jack, Clubs;)", &[0,39], &cards!(Two, Spades; Jack, Clubs;)),
    ("cards!(Two, Spades; Queen, Spades)", &[0,40], &cards!(Two, Spades; Queen, Spades)),
    ("cards!(Two, Spades; Queen, Hearts;)", &[0,41], &cards!(Two, Spades; Queen, Hearts;)),
    ("cards!(Two, Spades; Queen, Diamonds)", &[0,42], &cards!(Two, Spades; Queen, Diamonds)),
    ("cards!(Two, Spades; Queen, Clubs;)", &[0,43], &cards!(Two, Spades; Queen, Clubs;)),
    ("cards!(Two, Spades; King, Spades)", &[0,44], &cards!(Two, Spades; King, Spades)),
    ("cards!(Two, Spades; King, Hearts;)", &[0,45], &cards!(Two, Spades; King, Hearts;)),
    ("cards!(Two, Spades; King, Diamonds)", &[0,46], &cards!(Two, Spades; King, Diamonds)),
    ("cards!(Two, Spades; King, Clubs;)", &[0,47], &cards!(Two, Spades; King, Clubs;)),
    ("cards!(Two, Spades; Ace, Spades)", &[0,48], &cards!(Two, Spades; Ace, Spades)),
    ("cards!(Two, Spades; Ace, Hearts;)", &[0,49], &cards!(Two, Spades; Ace, Hearts;)),
    ("cards!(Two, Spades; Ace, Diamonds)", &[0,50], &cards!(Two, Spades; Ace, Diamonds)),
    ("cards!(Two, Spades; Ace, Clubs;)", &[0,51], &cards!(Two, Spades; Ace, Clubs;)),
    ("cards!(Two, Hearts; Two, Spades;)", &[1,0], &cards!(Two, Hearts; Two, Spades;)),
    ("cards!(Two, Hearts; Two, Hearts)", &[1,1], &cards!(Two, Hearts; Two, Hearts)),
    ("cards!(Two, Hearts; Two, Diamonds;)", &[1,2], &cards!(Two, Hearts; Two, Diamonds;)),
    ("cards!(Two, Hearts; Two, Clubs)", &[1,3], &cards!(Two, Hearts; Two, Clubs)),
    ("cards!(Two, Hearts; Three, Spades;)", &[1,4], &cards!(Two, Hearts; Three, Spades;)),
    ("cards!(Two, Hearts; Three, Hearts)", &[1,5], &cards!(Two, Hearts; Three, Hearts)),
    ("cards!(Two, Hearts; Three, Diamonds;)", &[1,6], &cards!(Two, Hearts; Three, Diamonds;)),
    ("cards!(Two, Hearts; Three, Clubs)", &[1,7], &cards!(Two, Hearts; Three, Clubs)),
    ("cards!(Two, Hearts; Four, Spades;)", &[1,8], &cards!(Two, Hearts; Four, Spades;)),
    ("cards!(Two, Hearts; Four, Hearts)", &[1,9], &cards!(Two, Hearts; Four, Hearts)),
    ("cards!(Two, Hearts; Four, Diamonds;)", &[1,10], &cards!(Two, Hearts; Four, Diamonds;)),
    ("cards!(Two, Hearts; Four, Clubs)", &[1,11], &cards!(Two, Hearts; Four, Clubs)),
    ("cards!(Two, Hearts; Five, Spades;)", &[1,12], &cards!(Two, Hearts; Five, Spades;)),
    ("cards!(Two, Hearts; Five, Hearts)", &[1,13], &cards!(Two, Hearts; Five, Hearts)),
    ("cards!(Two, Hearts; Five, Diamonds;)", &[1,14], &cards!(Two, Hearts; Five, Diamonds;)),
    ("cards!(Two, Hearts; Five, Clubs)", &[1,15], &cards!(Two, Hearts; Five, Clubs)),
    ("cards!(Two, Hearts; Six, Spades;)", &[1,16], &cards!(Two, Hearts; Six, Spades;)),
    ("cards!(Two, Hearts; Six, Hearts)", &[1,17], &cards!(Two, Hearts; Six, Hearts)),
    ("cards!(Two, Hearts; Six, Diamonds;)", &[1,18], &cards!(Two, Hearts; Six, Diamonds;)),
    ("cards!(Two, Hearts; Six, Clubs)", &[1,19], &cards!(Two, Hearts; Six, Clubs)),
    ("cards!(Two, Hearts; Seven, Spades;)", &[1,20], &cards!(Two, Hearts; Seven, Spades;)),
    ("cards!(Two, Hearts; Seven, Hearts)", &[1,21], &cards!(Two, Hearts; Seven, Hearts)),
    ("cards!(Two, Hearts; Seven, Diamonds;)", &[1,22], &cards!(Two, Hearts; Seven, Diamonds;)),
    ("cards!(Two, Hearts; Seven, Clubs)", &[1,23], &cards!(Two, Hearts; Seven, Clubs)),
    ("cards!(Two, Hearts; Eight, Spades;)", &[1,24], &cards!(Two, Hearts; Eight, Spades;)),
    ("cards!(Two, Hearts; Eight, Hearts)", &[1,25], &cards!(Two, Hearts; Eight, Hearts)),
    ("cards!(Two, Hearts; Eight, Diamonds;)", &[1,26], &cards!(Two, Hearts; Eight, Diamonds;)),
    ("cards!(Two, Hearts; Eight, Clubs)", &[1,27], &cards!(Two, Hearts; Eight, Clubs)),
    ("cards!(Two, Hearts; Nine, Spades;)", &[1,28], &cards!(Two, Hearts; Nine, Spades;)),
    ("cards!(Two, Hearts; Nine, Hearts)", &[1,29], &cards!(Two, Hearts; Nine, Hearts)),
    ("cards!(Two, Hearts; Nine, Diamonds;)", &[1,30], &cards!(Two, Hearts; Nine, Diamonds;)),
    ("cards!(Two, Hearts; Nine, Clubs)", &[1,31], &cards!(Two, Hearts; Nine, Clubs)),
    ("cards!(Two, Hearts; Ten, Spades;)", &[1,32], &cards!(Two, Hearts; Ten, Spades;)),
    ("cards!(Two, Hearts; Ten, Hearts)", &[1,33], &cards!(Two, Hearts; Ten, Hearts)),
    ("cards!(Two, Hearts; Ten, Diamonds;)", &[1,34], &cards!(Two, Hearts; Ten, Diamonds;)),
    ("cards!(Two, Hearts; Ten, Clubs)", &[1,35], &cards!(Two, Hearts; Ten, Clubs)),
    ("cards!(Two, Hearts; Jack, Spades;)", &[1,36], &cards!(Two, Hearts; Jack, Spades;)),
    ("cards!(Two, Hearts; Jack, Hearts)", &[1,37], &cards!(Two, Hearts; Jack, Hearts)),
    ("cards!(Two, Hearts; Jack, Diamonds;)", &[1,38], &cards!(Two, Hearts; Jack, Diamonds;)),
    ("cards!(Two, Hearts; Jack, Clubs)", &[1,39], &cards!(Two, Hearts; Jack, Clubs)),
    ("cards!(Two, Hearts; Queen, Spades;)", &[1,40], &cards!(Two, Hearts; Queen, Spades;)),
    ("cards!(Two, Hearts; Queen, Hearts)", &[1,41], &cards!(Two, Hearts; Queen, Hearts)),
    ("cards!(Two, Hearts; Queen, Diamonds;)", &[1,42], &cards!(Two, Hearts; Queen, Diamonds;)),
    ("cards!(Two, Hearts; Queen, Clubs)", &[1,43], &cards!(Two, Hearts; Queen, Clubs)),
    ("cards!(Two, Hearts; King, Spades;)", &[1,44], &cards!(Two, Hearts; King, Spades;)),
    ("cards!(Two, Hearts; King, Hearts)", &[1,45], &cards!(Two, Hearts; King, Hearts)),
    ("cards!(Two, Hearts; King, Diamonds;)", &[1,46], &cards!(Two, Hearts; King, Diamonds;)),
    ("cards!(Two, Hearts; King, Clubs)", &[1,47], &cards!(Two, Hearts; King, Clubs)),
    ("cards!(Two, Hearts; Ace, Spades;)", &[1,48], &cards!(Two, Hearts; Ace, Spades;)),
    ("cards!(Two, Hearts; Ace, Hearts)", &[1,49], &cards!(Two, Hearts; Ace, Hearts)),
    ("cards!(Two, Hearts; Ace, Diamonds;)", &[1,50], &cards!(Two, Hearts; Ace, Diamonds;)),
    ("cards!(Two, Hearts; Ace, Clubs)", &[1,51], &cards!(Two, Hearts; Ace, Clubs)),
    ("cards!(Two, Diamonds; Two, Spades)", &[2,0], &cards!(Two, Diamonds; Two, Spades)),
    ("cards!(Two, Diamonds; Two, Hearts;)", &[2,1], &cards!(Two, Diamonds; Two, Hearts;)),
    ("cards!(Two, Diamonds; Two, Diamonds)", &[2,2], &cards!(Two, Diamonds; Two, Diamonds)),
    ("cards!(Two, Diamonds; Two, Clubs;)", &[2,3], &cards!(Two, Diamonds; Two, Clubs;)),
    ("cards!(Two, Diamonds; Three, Spades)", &[2,4], &cards!(Two, Diamonds; Three, Spades)),
    ("cards!(Two, Diamonds; Three, Hearts;)", &[2,5], &cards!(Two, Diamonds; Three, Hearts;)),
    ("cards!(Two, Diamonds; Three, Diamonds)", &[2,6], &cards!(Two, Diamonds; Three, Diamonds)),
    ("cards!(Two, Diamonds; Three, Clubs;)", &[2,7], &cards!(Two, Diamonds; Three, Clubs;)),
    ("cards!(Two, Diamonds; Four, Spades)", &[2,8], &cards!(Two, Diamonds; Four, Spades)),
    ("cards!(Two, Diamonds; Four, Hearts;)", &[2,9], &cards!(Two, Diamonds; Four, Hearts;)),
    ("cards!(Two, Diamonds; Four, Diamonds)", &[2,10], &cards!(Two, Diamonds; Four, Diamonds)),
    ("cards!(Two, Diamonds; Four, Clubs;)", &[2,11], &cards!(Two, Diamonds; Four, Clubs;)),
    ("cards!(Two, Diamonds; Five, Spades)", &[2,12], &cards!(Two, Diamonds; Five, Spades)),
    ("cards!(Two, Diamonds; Five, Hearts;)", &[2,13], &cards!(Two, Diamonds; Five, Hearts;)),
    ("cards!(Two, Diamonds; Five, Diamonds)", &[2,14], &cards!(Two, Diamonds; Five, Diamonds)),
    ("cards!(Two, Diamonds; Five, Clubs;)", &[2,15], &cards!(Two, Diamonds; Five, Clubs;)),
    ("cards!(Two, Diamonds; Six, Spades)", &[2,16], &cards!(Two, Diamonds; Six, Spades)),
    ("cards!(Two, Diamonds; Six, Hearts;)", &[2,17], &cards!(Two, Diamonds; Six, Hearts;)),
    ("cards!(Two, Diamonds; Six, Diamonds)", &[2,18], &cards!(Two, Diamonds; Six, Diamonds)),
    ("cards!(Two, Diamonds; Six, Clubs;)", &[2,19], &cards!(Two, Diamonds; Six, Clubs;)),
    ("cards!(Two, Diamonds; Seven, Spades)", &[2,20], &cards!(Two, Diamonds; Seven, Spades)),
    ("cards!(Two, Diamonds; Seven, Hearts;)", &[2,21], &cards!(Two, Diamonds; Seven, Hearts;)),
    ("cards!(Two, Diamonds; Seven, Diamonds)", &[2,22], &cards!(Two, Diamonds; Seven, Diamonds)),
    ("cards!(Two, Diamonds; Seven, Clubs;)", &[2,23], &cards!(Two, Diamonds; Seven, Clubs;)),
    ("cards!(Two, Diamonds; Eight, Spades)", &[2,24], &cards!(Two, Diamonds; Eight, Spades)),
    ("cards!(Two, Diamonds; Eight, Hearts;)", &[2,25], &cards!(Two, Diamonds; Eight, Hearts;)),
    ("cards!(Two, Diamonds; Eight, Diamonds)", &[2,26], &cards!(Two, Diamonds; Eight, Diamonds)),
    ("cards!(Two, Diamonds; Eight, Clubs;)", &[2,27], &cards!(Two, Diamonds; Eight, Clubs;)),
    ("cards!(Two, Diamonds; Nine, Spades)", &[2,28], &cards!(Two, Diamonds; Nine, Spades)),
    ("cards!(Two, Diamonds; Nine, Hearts;)", &[2,29], &cards!(Two, Diamonds; Nine, Hearts;)),
    ("cards!(Two, Diamonds; Nine, Diamonds)", &[2,30], &cards!(Two, Diamonds; Nine, Diamonds)),
    ("cards!(Two, Diamonds; Nine, Clubs;)", &[2,31], &cards!(Two, Diamonds; Nine, Clubs;)),
    ("cards!(Two, Diamonds; Ten, Spades)", &[2,32], &cards!(Two, Diamonds; Ten, Spades)),
    ("cards!(Two, Diamonds; Ten, Hearts;)", &[2,33], &cards!(Two, Diamonds; Ten, Hearts;)),
    ("cards!(Two, Diamonds; Ten, Diamonds)", &[2,34], &cards!(Two, Diamonds; Ten, Diamonds)),
    ("cards!(Two, Diamonds; Ten, Clubs;)", &[2,35], &cards!(Two, Diamonds; Ten, Clubs;)),
    ("cards!(Two, Diamonds; Jack, Spades)", &[2,36], &cards!(Two, Diamonds; Jack, Spades)),
    ("cards!(Two, Diamonds; Jack, Hearts;)", &[2,37], &cards!(Two, Diamonds; Jack, Hearts;)),
    ("cards!(Two, Diamonds; Jack, Diamonds)", &[2,38], &cards!(Two, Diamonds; Jack, Diamonds)),
    ("cards!(Two, Diamonds; Jack, Clubs;)", &[2,39], &cards!(Two, Diamonds; Jack, Clubs;)),
    ("cards!(Two, Diamonds; Queen, Spades)", &[2,40], &cards!(Two, Diamonds; Queen, Spades)),
    ("cards!(Two, Diamonds; Queen, Hearts;)", &[2,41], &cards!(Two, Diamonds; Queen, Hearts;)),
    ("cards!(Two, Diamonds; Queen, Diamonds)", &[2,42], &cards!(Two, Diamonds; Queen, Diamonds)),
    ("cards!(Two, Diamonds; Queen, Clubs;)", &[2,43], &cards!(Two, Diamonds; Queen, Clubs;)),
    ("cards!(Two, Diamonds; King, Spades)", &[2,44], &cards!(Two, Diamonds; King, Spades)),
    ("cards!(Two, Diamonds; King, Hearts;)", &[2,45], &cards!(Two, Diamonds; King, Hearts;)),
    ("cards!(Two, Diamonds; King, Diamonds)", &[2,46], &cards!(Two, Diamonds; King, Diamonds)),
    ("cards!(Two, Diamonds; King, Clubs;)", &[2,47], &cards!(Two, Diamonds; King, Clubs;)),
    ("cards!(Two, Diamonds; Ace, Spades)", &[2,48], &cards!(Two, Diamonds; Ace, Spades)),
    ("cards!(Two, Diamonds; Ace, Hearts;)", &[2,49], &cards!(Two, Diamonds; Ace, Hearts;)),
    ("cards!(Two, Diamonds; Ace, Diamonds)", &[2,50], &cards!(Two, Diamonds; Ace, Diamonds)),
    ("cards!(Two, Diamonds; Ace, Clubs;)", &[2,51], &cards!(Two, Diamonds; Ace, Clubs;)),
    ("cards!(Two, Clubs; Two, Spades;)", &[3,0], &cards!(Two, Clubs; Two, Spades;)),
    ("cards!(Two, Clubs; Two, Hearts)", &[3,1], &cards!(Two, Clubs; Two, Hearts)),
    ("cards!(Two, Clubs; Two, Diamonds;)", &[3,2], &cards!(Two, Clubs; Two, Diamonds;)),
    ("cards!(Two, Clubs; Two, Clubs)", &[3,3], &cards!(Two, Clubs; Two, Clubs)),
    ("cards!(Two, Clubs; Three, Spades;)", &[3,4], &cards!(Two, Clubs; Three, Spades;)),
    ("cards!(Two, Clubs; Three, Hearts)", &[3,5], &cards!(Two, Clubs; Three, Hearts)),
    ("cards!(Two, Clubs; Three, Diamonds;)", &[3,6], &cards!(Two, Clubs; Three, Diamonds;)),
    ("cards!(Two, Clubs; Three, Clubs)", &[3,7], &cards!(Two, Clubs; Three, Clubs)),
    ("cards!(Two, Clubs; Four, Spades;)", &[3,8], &cards!(Two, Clubs; Four, Spades;)),
    ("cards!(Two, Clubs; Four, Hearts)", &[3,9], &cards!(Two, Clubs; Four, Hearts)),
    ("cards!(Two, Clubs; Four, Diamonds;)", &[3,10], &cards!(Two, Clubs; Four, Diamonds;)),
    ("cards!(Two, Clubs; Four, Clubs)", &[3,11], &cards!(Two, Clubs; Four, Clubs)),
    ("cards!(Two, Clubs; Five, Spades;)", &[3,12], &cards!(Two, Clubs; Five, Spades;)),
    ("cards!(Two, Clubs; Five, Hearts)", &[3,13], &cards!(Two, Clubs; Five, Hearts)),
    ("cards!(Two, Clubs; Five, Diamonds;)", &[3,14], &cards!(Two, Clubs; Five, Diamonds;)),
    ("cards!(Two, Clubs; Five, Clubs)", &[3,15], &cards!(Two, Clubs; Five, Clubs)),
    ("cards!(Two, Clubs; Six, Spades;)", &[3,16], &cards!(Two, Clubs; Six, Spades;)),
    ("cards!(Two, Clubs; Six, Hearts)", &[3,17], &cards!(Two, Clubs; Six, Hearts)),
    ("cards!(Two, Clubs; Six, Diamonds;)", &[3,18], &cards!(Two, Clubs; Six, Diamonds;)),
    ("cards!(Two, Clubs; Six, Clubs)", &[3,19], &cards!(Two, Clubs; Six, Clubs)),
    ("cards!(Two, Clubs; Seven, Spades;)", &[3,20], &cards!(Two, Clubs; Seven, Spades;)),
    ("cards!(Two, Clubs; Seven, Hearts)", &[3,21], &cards!(Two, Clubs; Seven, Hearts)),
    ("cards!(Two, Clubs; Seven, Diamonds;)", &[3,22], &cards!(Two, Clubs; Seven, Diamonds;)),
    ("cards!(Two, Clubs; Seven, Clubs)", &[3,23], &cards!(Two, Clubs; Seven, Clubs)),
    ("cards!(Two, Clubs; Eight, Spades;)", &[3,24], &cards!(Two, Clubs; Eight, Spades;)),
    ("cards!(Two, Clubs; Eight, Hearts)", &[3,25], &cards!(Two, Clubs; Eight, Hearts)),
    ("cards!(Two, Clubs; Eight, Diamonds;)", &[3,26], &cards!(Two, Clubs; Eight, Diamonds;)),
    ("cards!(Two, Clubs; Eight, Clubs)", &[3,27], &cards!(Two, Clubs; Eight, Clubs)),
    ("cards!(Two, Clubs; Nine, Spades;)", &[3,28], &cards!(Two, Clubs; Nine, Spades;)),
    ("cards!(Two, Clubs; Nine, Hearts)", &[3,29], &cards!(Two, Clubs; Nine, Hearts)),
    ("cards!(Two, Clubs; Nine, Diamonds;)", &[3,30], &cards!(Two, Clubs; Nine, Diamonds;)),
    ("cards!(Two, Clubs; Nine, Clubs)", &[3,31], &cards!(Two, Clubs; Nine, Clubs)),
    ("cards!(Two, Clubs; Ten, Spades;)", &[3,32], &cards!(Two, Clubs; Ten, Spades;)),
    ("cards!(Two, Clubs; Ten, Hearts)", &[3,33], &cards!(Two, Clubs; Ten, Hearts)),
    ("cards!(Two, Clubs; Ten, Diamonds;)", &[3,34], &cards!(Two, Clubs; Ten, Diamonds;)),
    ("cards!(Two, Clubs; Ten, Clubs)", &[3,35], &cards!(Two, Clubs; Ten, Clubs)),
    ("cards!(Two, Clubs; Jack, Spades;)", &[3,36], &cards!(Two, Clubs; Jack, Spades;)),
    ("cards!(Two, Clubs; Jack, Hearts)", &[3,37], &cards!(Two, Clubs; Jack, Hearts)),
    ("cards!(Two, Clubs; Jack, Diamonds;)", &[3,38], &cards!(Two, Clubs; Jack, Diamonds;)),
    ("cards!(Two, Clubs; Jack, Clubs)", &[3,39], &cards!(Two, Clubs; Jack, Clubs)),
    ("cards!(Two, Clubs; Queen, Spades;)", &[3,40], &cards!(Two, Clubs; Queen, Spades;)),
    ("cards!(Two, Clubs; Queen, Hearts)", &[3,41], &cards!(Two, Clubs; Queen, Hearts)),
    ("cards!(Two, Clubs; Queen, Diamonds;)", &[3,42], &cards!(Two, Clubs; Queen, Diamonds;)),
    ("cards!(Two, Clubs; Queen, Clubs)", &[3,43], &cards!(Two, Clubs; Queen, Clubs)),
    ("cards!(Two, Clubs; King, Spades;)", &[3,44], &cards!(Two, Clubs; King, Spades;)),
    ("cards!(Two, Clubs; King, Hearts)", &[3,45], &cards!(Two, Clubs; King, Hearts)),
    ("cards!(Two, Clubs; King, Diamonds;)", &[3,46], &cards!(Two, Clubs; King, Diamonds;)),
    ("cards!(Two, Clubs; King, Clubs)", &[3,47], &cards!(Two, Clubs; King, Clubs)),
    ("cards!(Two, Clubs; Ace, Spades;)", &[3,48], &cards!(Two, Clubs; Ace, Spades;)),
    ("cards!(Two, Clubs; Ace, Hearts)", &[3,49], &cards!(Two, Clubs; Ace, Hearts)),
    ("cards!(Two, Clubs; Ace, Diamonds;)", &[3,50], &cards!(Two, Clubs; Ace, Diamonds;)),
    ("cards!(Two, Clubs; Ace, Clubs)", &[3,51], &cards!(Two, Clubs; Ace, Clubs)),
    ("cards!(Three, Spades; Two, Spades)", &[4,0], &cards!(Three, Spades; Two, Spades)),
    ("cards!(Three, Spades; Two, Hearts;)", &[4,1], &cards!(Three, Spades; Two, Hearts;)),
    ("cards!(Three, Spades; Two, Diamonds)", &[4,2], &cards!(Three, Spades; Two, Diamonds)),
    ("cards!(Three, Spades; Two, Clubs;)", &[4,3], &cards!(Three, Spades; Two, Clubs;)),
    ("cards!(Three, Spades; Three, Spades)", &[4,4], &cards!(Three, Spades; Three, Spades)),
    ("cards!(Three, Spades; Three, Hearts;)", &[4,5], &cards!(Three, Spades; Three, Hearts;)),
    ("cards!(Three, Spades; Three, Diamonds)", &[4,6], &cards!(Three, Spades; Three, Diamonds)),
    ("cards!(Three, Spades; Three, Clubs;)", &[4,7], &cards!(Three, Spades; Three, Clubs;)),
    ("cards!(Three, Spades; Four, Spades)", &[4,8], &cards!(Three, Spades; Four, Spades)),
    ("cards!(Three, Spades; Four, Hearts;)", &[4,9], &cards!(Three, Spades; Four, Hearts;)),
    ("cards!(Three, Spades; Four, Diamonds)", &[4,10], &cards!(Three, Spades; Four, Diamonds)),
    ("cards!(Three, Spades; Four, Clubs;)", &[4,11], &cards!(Three, Spades; Four, Clubs;)),
    ("cards!(Three, Spades; Five, Spades)", &[4,12], &cards!(Three, Spades; Five, Spades)),
    ("cards!(Three, Spades; Five, Hearts;)", &[4,13], &cards!(Three, Spades; Five, Hearts;)),
    ("cards!(Three, Spades; Five, Diamonds)", &[4,14], &cards!(Three, Spades; Five, Diamonds)),
    ("cards!(Three, Spades; Five, Clubs;)", &[4,15], &cards!(Three, Spades; Five, Clubs;)),
    ("cards!(Three, Spades; Six, Spades)", &[4,16], &cards!(Three, Spades; Six, Spades)),
    ("cards!(Three, Spades; Six, Hearts;)", &[4,17], &cards!(Three, Spades; Six, Hearts;)),
    ("cards!(Three, Spades; Six, Diamonds)", &[4,18], &cards!(Three, Spades; Six, Diamonds)),
    ("cards!(Three, Spades; Six, Clubs;)", &[4,19], &cards!(Three, Spades; Six, Clubs;)),
    ("cards!(Three, Spades; Seven, Spades)", &[4,20], &cards!(Three, Spades; Seven, Spades)),
    ("cards!(Three, Spades; Seven, Hearts;)", &[4,21], &cards!(Three, Spades; Seven, Hearts;)),
    ("cards!(Three, Spades; Seven, Diamonds)", &[4,22], &cards!(Three, Spades; Seven, Diamonds)),
    ("cards!(Three, Spades; Seven, Clubs;)", &[4,23], &cards!(Three, Spades; Seven, Clubs;)),
    ("cards!(Three, Spades; Eight, Spades)", &[4,24], &cards!(Three, Spades; Eight, Spades)),
    ("cards!(Three, Spades; Eight, Hearts;)", &[4,25], &cards!(Three, Spades; Eight, Hearts;)),
    ("cards!(Three, Spades; Eight, Diamonds)", &[4,26], &cards!(Three, Spades; Eight, Diamonds)),
    ("cards!(Three, Spades; Eight, Clubs;)", &[4,27], &cards!(Three, Spades; Eight, Clubs;)),
    ("cards!(Three, Spades; Nine, Spades)", &[4,28], &cards!(Three, Spades; Nine, Spades)),
    ("cards!(Three, Spades; Nine, Hearts;)", &[4,29], &cards!(Three, Spades; Nine, Hearts;)),
    ("cards!(Three, Spades; Nine, Diamonds)", &[4,30], &cards!(Three, Spades; Nine, Diamonds)),
    ("cards!(Three, Spades; Nine, Clubs;)", &[4,31], &cards!(Three, Spades; Nine, Clubs;)),
    ("cards!(Three, Spades; Ten, Spades)", &[4,32], &cards!(Three, Spades; Ten, Spades)),
    ("cards!(Three, Spades; Ten, Hearts;)", &[4,33], &cards!(Three, Spades; Ten, Hearts;)),
    ("cards!(Three, Spades; Ten, Diamonds)", &[4,34], &cards!(Three, Spades; Ten, Diamonds)),
    ("cards!(Three, Spades; Ten, Clubs;)", &[4,35], &cards!(Three, Spades; Ten, Clubs;)),
    ("cards!(Three, Spades; Jack, Spades)", &[4,36], &cards!(Three, Spades; Jack, Spades)),
    ("cards!(Three, Spades; Jack, Hearts;)", &[4,37], &cards!(Three, Spades; Jack, Hearts;)),
    ("cards!(Three, Spades; Jack, Diamonds)", &[4,38], &cards!(Three, Spades; Jack, Diamonds)),
    ("cards!(Three, Spades; Jack, Clubs;)", &[4,39], &cards!(Three, Spades; Jack, Clubs;)),
    ("cards!(Three, Spades; Queen, Spades)", &[4,40], &cards!(Three, Spades; Queen, Spades)),
    ("cards!(Three, Spades; Queen, Hearts;)", &[4,41], &cards!(Three, Spades; Queen, Hearts;)),
    ("cards!(Three, Spades; Queen, Diamonds)", &[4,42], &cards!(Three, Spades; Queen, Diamonds)),
    ("cards!(Three, Spades; Queen, Clubs;)", &[4,43], &cards!(Three, Spades; Queen, Clubs;)),
    ("cards!(Three, Spades; King, Spades)", &[4,44], &cards!(Three, Spades; King, Spades)),
    ("cards!(Three, Spades; King, Hearts;)", &[4,45], &cards!(Three, Spades; King, Hearts;)),
    ("cards!(Three, Spades; King, Diamonds)", &[4,46], &cards!(Three, Spades; King, Diamonds)),
    ("cards!(Three, Spades; King, Clubs;)", &[4,47], &cards!(Three, Spades; King, Clubs;)),
    ("cards!(Three, Spades; Ace, Spades)", &[4,48], &cards!(Three, Spades; Ace, Spades)),
    ("cards!(Three, Spades; Ace, Hearts;)", &[4,49], &cards!(Three, Spades; Ace, Hearts;)),
    ("cards!(Three, Spades; Ace, Diamonds)", &[4,50], &cards!(Three, Spades; Ace, Diamonds)),
    ("cards!(Three, Spades; Ace, Clubs;)", &[4,51], &cards!(Three, Spades; Ace, Clubs;)),
    ("cards!(Three, Hearts; Two, Spades;)", &[5,0], &cards!(Three, Hearts; Two, Spades;)),
    ("cards!(Three, Hearts; Two, Hearts)", &[5,1], &cards!(Three, Hearts; Two, Hearts)),
    ("cards!(Three, Hearts; Two, Diamonds;)", &[5,2], &cards!(Three, Hearts; Two, Diamonds;)),
    ("cards!(Three, Hearts; Two, Clubs)", &[5,3], &cards!(Three, Hearts; Two, Clubs)),
    ("cards!(Three, Hearts; Three, Spades;)", &[5,4], &cards!(Three, Hearts; Three, Spades;)),
    ("cards!(Three, Hearts; Three, Hearts)", &[5,5], &cards!(Three, Hearts; Three, Hearts)),
    ("cards!(Three, Hearts; Three, Diamonds;)", &[5,6], &cards!(Three, Hearts; Three, Diamonds;)),
    ("cards!(Three, Hearts; Three, Clubs)", &[5,7], &cards!(Three, Hearts; Three, Clubs)),
    ("cards!(Three, Hearts; Four, Spades;)", &[5,8], &cards!(Three, Hearts; Four, Spades;)),
    ("cards!(Three, Hearts; Four, Hearts)", &[5,9], &cards!(Three, Hearts; Four, Hearts)),
    ("cards!(Three, Hearts; Four, Diamonds;)", &[5,10], &cards!(Three, Hearts; Four, Diamonds;)),
    ("cards!(Three, Hearts; Four, Clubs)", &[5,11], &cards!(Three, Hearts; Four, Clubs)),
    ("cards!(Three, Hearts; Five, Spades;)", &[5,12], &cards!(Three, Hearts; Five, Spades;)),
    ("cards!(Three, Hearts; Five, Hearts)", &[5,13], &cards!(Three, Hearts; Five, Hearts)),
    ("cards!(Three, Hearts; Five, Diamonds;)", &[5,14], &cards!(Three, Hearts; Five, Diamonds;)),
    ("cards!(Three, Hearts; Five, Clubs)", &[5,15], &cards!(Three, Hearts; Five, Clubs)),
    ("cards!(Three, Hearts; Six, Spades;)", &[5,16], &cards!(Three, Hearts; Six, Spades;)),
    ("cards!(Three, Hearts; Six, Hearts)", &[5,17], &cards!(Three, Hearts; Six, Hearts)),
    ("cards!(Three, Hearts; Six, Diamonds;)", &[5,18], &cards!(Three, Hearts; Six, Diamonds;)),
    ("cards!(Three, Hearts; Six, Clubs)", &[5,19], &cards!(Three, Hearts; Six, Clubs)),
    ("cards!(Three, Hearts; Seven, Spades;)", &[5,20], &cards!(Three, Hearts; Seven, Spades;)),
    ("cards!(Three, Hearts; Seven, Hearts)", &[5,21], &cards!(Three, Hearts; Seven, Hearts)),
    ("cards!(Three, Hearts; Seven, Diamonds;)", &[5,22], &cards!(Three, Hearts; Seven, Diamonds;)),
    ("cards!(Three, Hearts; Seven, Clubs)", &[5,23], &cards!(Three, Hearts; Seven, Clubs)),
    ("cards!(Three, Hearts; Eight, Spades;)", &[5,24], &cards!(Three, Hearts; Eight, Spades;)),
    ("cards!(Three, Hearts; Eight, Hearts)", &[5,25], &cards!(Three, Hearts; Eight, Hearts)),
    ("cards!(Three, Hearts; Eight, Diamonds;)", &[5,26], &cards!(Three, Hearts; Eight, Diamonds;)),
    ("cards!(Three, Hearts; Eight, Clubs)", &[5,27], &cards!(Three, Hearts; Eight, Clubs)),
    ("cards!(Three, Hearts; Nine, Spades;)", &[5,28], &cards!(Three, Hearts; Nine, Spades;)),
    ("cards!(Three, Hearts; Nine, Hearts)", &[5,29], &cards!(Three, Hearts; Nine, Hearts)),
    ("cards!(Three, Hearts; Nine, Diamonds;)", &[5,30], &cards!(Three, Hearts; Nine, Diamonds;)),
    ("cards!(Three, Hearts; Nine, Clubs)", &[5,31], &cards!(Three, Hearts; Nine, Clubs)),
    ("cards!(Three, Hearts; Ten, Spades;)", &[5,32], &cards!(Three, Hearts; Ten, Spades;)),
    ("cards!(Three, Hearts; Ten, Hearts)", &[5,33], &cards!(Three, Hearts; Ten, Hearts)),
    ("cards!(Three, Hearts; Ten, Diamonds;)", &[5,34], &cards!(Three, Hearts; Ten, Diamonds;)),
    ("cards!(Three, Hearts; Ten, Clubs)", &[5,35], &cards!(Three, Hearts; Ten, Clubs)),
    ("cards!(Three, Hearts; Jack, Spades;)", &[5,36], &cards!(Three, Hearts; Jack, Spades;)),
    ("cards!(Three, Hearts; Jack, Hearts)", &[5,37], &cards!(Three, Hearts; Jack, Hearts)),
    ("cards!(Three, Hearts; Jack, Diamonds;)", &[5,38], &cards!(Three, Hearts; Jack, Diamonds;)),
    ("cards!(Three, Hearts; Jack, Clubs)", &[5,39], &cards!(Three, Hearts; Jack, Clubs)),
    ("cards!(Three, Hearts; Queen, Spades;)", &[5,40], &cards!(Three, Hearts; Queen, Spades;)),
    ("cards!(Three, Hearts; Queen, Hearts)", &[5,41], &cards!(Three, Hearts; Queen, Hearts)),
    ("cards!(Three, Hearts; Queen, Diamonds;)", &[5,42], &cards!(Three, Hearts; Queen, Diamonds;)),
    ("cards!(Three, Hearts; Queen, Clubs)", &[5,43], &cards!(Three, Hearts; Queen, Clubs)),
    ("cards!(Three, Hearts; King, Spades;)", &[5,44], &cards!(Three, Hearts; King, Spades;)),
    ("cards!(Three, Hearts; King, Hearts)", &[5,45], &cards!(Three, Hearts; King, Hearts)),
    ("cards!(Three, Hearts; King, Diamonds;)", &[5,46], &cards!(Three, Hearts; King, Diamonds;)),
    ("cards!(Three, Hearts; King, Clubs)", &[5,47], &cards!(Three, Hearts; King, Clubs)),
    ("cards!(Three, Hearts; Ace, Spades;)", &[5,48], &cards!(Three, Hearts; Ace, Spades;)),
    ("cards!(Three, Hearts; Ace, Hearts)", &[5,49], &cards!(Three, Hearts; Ace, Hearts)),
    ("cards!(Three, Hearts; Ace, Diamonds;)", &[5,50], &cards!(Three, Hearts; Ace, Diamonds;)),
    ("cards!(Three, Hearts; Ace, Clubs)", &[5,51], &cards!(Three, Hearts; Ace, Clubs)),
    ("cards!(Three, Diamonds; Two, Spades)", &[6,0], &cards!(Three, Diamonds; Two, Spades)),
    ("cards!(Three, Diamonds; Two, Hearts;)", &[6,1], &cards!(Three, Diamonds; Two, Hearts;)),
    ("cards!(Three, Diamonds; Two, Diamonds)", &[6,2], &cards!(Three, Diamonds; Two, Diamonds)),
    ("cards!(Three, Diamonds; Two, Clubs;)", &[6,3], &cards!(Three, Diamonds; Two, Clubs;)),
    ("cards!(Three, Diamonds; Three, Spades)", &[6,4], &cards!(Three, Diamonds; Three, Spades)),
    ("cards!(Three, Diamonds; Three, Hearts;)", &[6,5], &cards!(Three, Diamonds; Three, Hearts;)),
    ("cards!(Three, Diamonds; Three, Diamonds)", &[6,6], &cards!(Three, Diamonds; Three, Diamonds)),
    ("cards!(Three, Diamonds; Three, Clubs;)", &[6,7], &cards!(Three, Diamonds; Three, Clubs;)),
    ("cards!(Three, Diamonds; Four, Spades)", &[6,8], &cards!(Three, Diamonds; Four, Spades)),
    ("cards!(Three, Diamonds; Four, Hearts;)", &[6,9], &cards!(Three, Diamonds; Four, Hearts;)),
    ("cards!(Three, Diamonds; Four, Diamonds)", &[6,10], &cards!(Three, Diamonds; Four, Diamonds)),
    ("cards!(Three, Diamonds; Four, Clubs;)", &[6,11], &cards!(Three, Diamonds; Four, Clubs;)),
    ("cards!(Three, Diamonds; Five, Spades)", &[6,12], &cards!(Three, Diamonds; Five, Spades)),
    ("cards!(Three, Diamonds; Five, Hearts;)", &[6,13], &cards!(Three, Diamonds; Five, Hearts;)),
    ("cards!(Three, Diamonds; Five, Diamonds)", &[6,14], &cards!(Three, Diamonds; Five, Diamonds)),
    ("cards!(Three, Diamonds; Five, Clubs;)", &[6,15], &cards!(Three, Diamonds; Five, Clubs;)),
    ("cards!(Three, Diamonds; Six, Spades)", &[6,16], &cards!(Three, Diamonds; Six, Spades)),
    ("cards!(Three, Diamonds; Six, Hearts;)", &[6,17], &cards!(Three, Diamonds; Six, Hearts;)),
    ("cards!(Three, Diamonds; Six, Diamonds)", &[6,18], &cards!(Three, Diamonds; Six, Diamonds)),
    ("cards!(Three, Diamonds; Six, Clubs;)", &[6,19], &cards!(Three, Diamonds; Six, Clubs;)),
    ("cards!(Three, Diamonds; Seven, Spades)", &[6,20], &cards!(Three, Diamonds; Seven, Spades)),
    ("cards!(Three, Diamonds; Seven, Hearts;)", &[6,21], &cards!(Three, Diamonds; Seven, Hearts;)),
    ("cards!(Three, Diamonds; Seven, Diamonds)", &[6,22], &cards!(Three, Diamonds; Seven, Diamonds)),
    ("cards!(Three, Diamonds; Seven, Clubs;)", &[6,23], &cards!(Three, Diamonds; Seven, Clubs;)),
    ("cards!(Three, Diamonds; Eight, Spades)", &[6,24], &cards!(Three, Diamonds; Eight, Spades)),
    ("cards!(Three, Diamonds; Eight, Hearts;)", &[6,25], &cards!(Three, Diamonds; Eight, Hearts;)),
    ("cards!(Three, Diamonds; Eight, Diamonds)", &[6,26], &cards!(Three, Diamonds; Eight, Diamonds)),
    ("cards!(Three, Diamonds; Eight, Clubs;)", &[6,27], &cards!(Three, Diamonds; Eight, Clubs;)),
    ("cards!(Three, Diamonds; Nine, Spades)", &[6,28], &cards!(Three, Diamonds; Nine, Spades)),
    ("cards!(Three, Diamonds; Nine, Hearts;)", &[6,29], &cards!(Three, Diamonds; Nine, Hearts;)),
    ("cards!(Three, Diamonds; Nine, Diamonds)", &[6,30], &cards!(Three, Diamonds; Nine, Diamonds)),
    ("cards!(Three, Diamonds; Nine, Clubs;)", &[6,31], &cards!(Three, Diamonds; Nine, Clubs;)),
    ("cards!(Three, Diamonds; Ten, Spades)", &[6,32], &cards!(Three, Diamonds; Ten, Spades)),
    ("cards!(Three, Diamonds; Ten, Hearts;)", &[6,33], &cards!(Three, Diamonds; Ten, Hearts;)),
    ("cards!(Three, Diamonds; Ten, Diamonds)", &[6,34], &cards!(Three, Diamonds; Ten, Diamonds)),
    ("cards!(Three, Diamonds; Ten, Clubs;)", &[6,35], &cards!(Three, Diamonds; Ten, Clubs;)),
    ("cards!(Three, Diamonds; Jack, Spades)", &[6,36], &cards!(Three, Diamonds; Jack, Spades)),
    ("cards!(Three, Diamonds; Jack, Hearts;)", &[6,37], &cards!(Three, Diamonds; Jack, Hearts;)),
    ("cards!(Three, Diamonds; Jack, Diamonds)", &[6,38], &cards!(Three, Diamonds; Jack, Diamonds)),
    ("cards!(Three, Diamonds; Jack, Clubs;)", &[6,39], &cards!(Three, Diamonds; Jack, Clubs;)),
    ("cards!(Three, Diamonds; Queen, Spades)", &[6,40], &cards!(Three, Diamonds; Queen, Spades)),
    ("cards!(Three, Diamonds; Queen, Hearts;)", &[6,41], &cards!(Three, Diamonds; Queen, Hearts;)),
    ("cards!(Three, Diamonds; Queen, Diamonds)", &[6,42], &cards!(Three, Diamonds; Queen, Diamonds)),
    ("cards!(Three, Diamonds; Queen, Clubs;)", &[6,43], &cards!(Three, Diamonds; Queen, Clubs;)),
    ("cards!(Three, Diamonds; King, Spades)", &[6,44], &cards!(Three, Diamonds; King, Spades)),
    ("cards!(Three, Diamonds; King, Hearts;)", &[6,45], &cards!(Three, Diamonds; King, Hearts;)),
    ("cards!(Three, Diamonds; King, Diamonds)", &[6,46], &cards!(Three, Diamonds; King, Diamonds)),
    ("cards!(Three, Diamonds; King, Clubs;)", &[6,47], &cards!(Three, Diamonds; King, Clubs;)),
    ("cards!(Three, Diamonds; Ace, Spades)", &[6,48], &cards!(Three, Diamonds; Ace, Spades)),
    ("cards!(Three, Diamonds; Ace, Hearts;)", &[6,49], &cards!(Three, Diamonds; Ace, Hearts;)),
    ("cards!(Three, Diamonds; Ace, Diamonds)", &[6,50], &cards!(Three, Diamonds; Ace, Diamonds)),
    ("cards!(Three, Diamonds; Ace, Clubs;)", &[6,51], &cards!(Three, Diamonds; Ace, Clubs;)),
    ("cards!(Three, Clubs; Two, Spades;)", &[7,0], &cards!(Three, Clubs; Two, Spades;)),
    ("cards!(Three, Clubs; Two, Hearts)", &[7,1], &cards!(Three, Clubs; Two, Hearts)),
    ("cards!(Three, Clubs; Two, Diamonds;)", &[7,2], &cards!(Three, Clubs; Two, Diamonds;)),
    ("cards!(Three, Clubs; Two, Clubs)", &[7,3], &cards!(Three, Clubs; Two, Clubs)),
    ("cards!(Three, Clubs; Three, Spades;)", &[7,4], &cards!(Three, Clubs; Three, Spades;)),
    ("cards!(Three, Clubs; Three, Hearts)", &[7,5], &cards!(Three, Clubs; Three, Hearts)),
    ("cards!(Three, Clubs; Three, Diamonds;)", &[7,6], &cards!(Three, Clubs; Three, Diamonds;)),
    ("cards!(Three, Clubs; Three, Clubs)", &[7,7], &cards!(Three, Clubs; Three, Clubs)),
    ("cards!(Three, Clubs; Four, Spades;)", &[7,8], &cards!(Three, Clubs; Four, Spades;)),
    ("cards!(Three, Clubs; Four, Hearts)", &[7,9], &cards!(Three, Clubs; Four, Hearts)),
    ("cards!(Three, Clubs; Four, Diamonds;)", &[7,10], &cards!(Three, Clubs; Four, Diamonds;)),
    ("cards!(Three, Clubs; Four, Clubs)", &[7,11], &cards!(Three, Clubs; Four, Clubs)),
    ("cards!(Three, Clubs; Five, Spades;)", &[7,12], &cards!(Three, Clubs; Five, Spades;)),
    ("cards!(Three, Clubs; Five, Hearts)", &[7,13], &cards!(Three, Clubs; Five, Hearts)),
    ("cards!(Three, Clubs; Five, Diamonds;)", &[7,14], &cards!(Three, Clubs; Five, Diamonds;)),
    ("cards!(Three, Clubs; Five, Clubs)", &[7,15], &cards!(Three, Clubs; Five, Clubs)),
    ("cards!(Three, Clubs; Six, Spades;)", &[7,16], &cards!(Three, Clubs; Six, Spades;)),
    ("cards!(Three, Clubs; Six, Hearts)", &[7,17], &cards!(Three, Clubs; Six, Hearts)),
    ("cards!(Three, Clubs; Six, Diamonds;)", &[7,18], &cards!(Three, Clubs; Six, Diamonds;)),
    ("cards!(Three, Clubs; Six, Clubs)", &[7,19], &cards!(Three, Clubs; Six, Clubs)),
    ("cards!(Three, Clubs; Seven, Spades;)", &[7,20], &cards!(Three, Clubs; Seven, Spades;)),
    ("cards!(Three, Clubs; Seven, Hearts)", &[7,21], &cards!(Three, Clubs; Seven, Hearts)),
    ("cards!(Three, Clubs; Seven, Diamonds;)", &[7,22], &cards!(Three, Clubs; Seven, Diamonds;)),
    ("cards!(Three, Clubs; Seven, Clubs)", &[7,23], &cards!(Three, Clubs; Seven, Clubs)),
    ("cards!(Three, Clubs; Eight, Spades;)", &[7,24], &cards!(Three, Clubs; Eight, Spades;)),
    ("cards!(Three, Clubs; Eight, Hearts)", &[7,25], &cards!(Three, Clubs; Eight, Hearts)),
    ("cards!(Three, Clubs; Eight, Diamonds;)", &[7,26], &cards!(Three, Clubs; Eight, Diamonds;)),
    ("cards!(Three, Clubs; Eight, Clubs)", &[7,27], &cards!(Three, Clubs; Eight, Clubs)),
    ("cards!(Three, Clubs; Nine, Spades;)", &[7,28], &cards!(Three, Clubs; Nine, Spades;)),
    ("cards!(Three, Clubs; Nine, Hearts)", &[7,29], &cards!(Three, Clubs; Nine, Hearts)),
    ("cards!(Three, Clubs; Nine, Diamonds;)", &[7,30], &cards!(Three, Clubs; Nine, Diamonds;)),
    ("cards!(Three, Clubs; Nine, Clubs)", &[7,31], &cards!(Three, Clubs; Nine, Clubs)),
    ("cards!(Three, Clubs; Ten, Spades;)", &[7,32], &cards!(Three, Clubs; Ten, Spades;)),
    ("cards!(Three, Clubs; Ten, Hearts)", &[7,33], &cards!(Three, Clubs; Ten, Hearts)),
    ("cards!(Three, Clubs; Ten, Diamonds;)", &[7,34], &cards!(Three, Clubs; Ten, Diamonds;)),
    ("cards!(Three, Clubs; Ten, Clubs)", &[7,35], &cards!(Three, Clubs; Ten, Clubs)),
    ("cards!(Three, Clubs; Jack, Spades;)", &[7,36], &cards!(Three, Clubs; Jack, Spades;)),
    ("cards!(Three, Clubs; Jack, Hearts)", &[7,37], &cards!(Three, Clubs; Jack, Hearts)),
    ("cards!(Three, Clubs; Jack, Diamonds;)", &[7,38], &cards!(Three, Clubs; Jack, Diamonds;)),
    ("cards!(Three, Clubs; Jack, Clubs)", &[7,39], &cards!(Three, Clubs; Jack, Clubs)),
    ("cards!(Three, Clubs; Queen, Spades;)", &[7,40], &cards!(Three, Clubs; Queen, Spades;)),
    ("cards!(Three, Clubs; Queen, Hearts)", &[7,41], &cards!(Three, Clubs; Queen, Hearts)),
    ("cards!(Three, Clubs; Queen, Diamonds;)", &[7,42], &cards!(Three, Clubs; Queen, Diamonds;)),
    ("cards!(Three, Clubs; Queen, Clubs)", &[7,43], &cards!(Three, Clubs; Queen, Clubs)),
    ("cards!(Three, Clubs; King, Spades;)", &[7,44], &cards!(Three, Clubs; King, Spades;)),
    ("cards!(Three, Clubs; King, Hearts)", &[7,45], &cards!(Three, Clubs; King, Hearts)),
    ("cards!(Three, Clubs; King, Diamonds;)", &[7,46], &cards!(Three, Clubs; King, Diamonds;)),
    ("cards!(Three, Clubs; King, Clubs)", &[7,47], &cards!(Three, Clubs; King, Clubs)),
    ("cards!(Three, Clubs; Ace, Spades;)", &[7,48], &cards!(Three, Clubs; Ace, Spades;)),
    ("cards!(Three, Clubs; Ace, Hearts)", &[7,49], &cards!(Three, Clubs; Ace, Hearts)),
    ("cards!(Three, Clubs; Ace, Diamonds;)", &[7,50], &cards!(Three, Clubs; Ace, Diamonds;)),
    ("cards!(Three, Clubs; Ace, Clubs)", &[7,51], &cards!(Three, Clubs; Ace, Clubs)),
    ("cards!(Four, Spades; Two, Spades)", &[8,0], &cards!(Four, Spades; Two, Spades)),
    ("cards!(Four, Spades; Two, Hearts;)", &[8,1], &cards!(Four, Spades; Two, Hearts;)),
    ("cards!(Four, Spades; Two, Diamonds)", &[8,2], &cards!(Four, Spades; Two, Diamonds)),
    ("cards!(Four, Spades; Two, Clubs;)", &[8,3], &cards!(Four, Spades; Two, Clubs;)),
    ("cards!(Four, Spades; Three, Spades)", &[8,4], &cards!(Four, Spades; Three, Spades)),
    ("cards!(Four, Spades; Three, Hearts;)", &[8,5], &cards!(Four, Spades; Three, Hearts;)),
    ("cards!(Four, Spades; Three, Diamonds)", &[8,6], &cards!(Four, Spades; Three, Diamonds)),
    ("cards!(Four, Spades; Three, Clubs;)", &[8,7], &cards!(Four, Spades; Three, Clubs;)),
    ("cards!(Four, Spades; Four, Spades)", &[8,8], &cards!(Four, Spades; Four, Spades)),
    ("cards!(Four, Spades; Four, Hearts;)", &[8,9], &cards!(Four, Spades; Four, Hearts;)),
    ("cards!(Four, Spades; Four, Diamonds)", &[8,10], &cards!(Four, Spades; Four, Diamonds)),
    ("cards!(Four, Spades; Four, Clubs;)", &[8,11], &cards!(Four, Spades; Four, Clubs;)),
    ("cards!(Four, Spades; Five, Spades)", &[8,12], &cards!(Four, Spades; Five, Spades)),
    ("cards!(Four, Spades; Five, Hearts;)", &[8,13], &cards!(Four, Spades; Five, Hearts;)),
    ("cards!(Four, Spades; Five, Diamonds)", &[8,14], &cards!(Four, Spades; Five, Diamonds)),
    ("cards!(Four, Spades; Five, Clubs;)", &[8,15], &cards!(Four, Spades; Five, Clubs;)),
    ("cards!(Four, Spades; Six, Spades)", &[8,16], &cards!(Four, Spades; Six, Spades)),
    ("cards!(Four, Spades; Six, Hearts;)", &[8,17], &cards!(Four, Spades; Six, Hearts;)),
    ("cards!(Four, Spades; Six, Diamonds)", &[8,18], &cards!(Four, Spades; Six, Diamonds)),
    ("cards!(Four, Spades; Six, Clubs;)", &[8,19], &cards!(Four, Spades; Six, Clubs;)),
    ("cards!(Four, Spades; Seven, Spades)", &[8,20], &cards!(Four, Spades; Seven, Spades)),
    ("cards!(Four, Spades; Seven, Hearts;)", &[8,21], &cards!(Four, Spades; Seven, Hearts;)),
    ("cards!(Four, Spades; Seven, Diamonds)", &[8,22], &cards!(Four, Spades; Seven, Diamonds)),
    ("cards!(Four, Spades; Seven, Clubs;)", &[8,23], &cards!(Four, Spades; Seven, Clubs;)),
    ("cards!(Four, Spades; Eight, Spades)", &[8,24], &cards!(Four, Spades; Eight, Spades)),
    ("cards!(Four, Spades; Eight, Hearts;)", &[8,25], &cards!(Four, Spades; Eight, Hearts;)),
    ("cards!(Four, Spades; Eight, Diamonds)", &[8,26], &cards!(Four, Spades; Eight, Diamonds)),
    ("cards!(Four, Spades; Eight, Clubs;)", &[8,27], &cards!(Four, Spades; Eight, Clubs;)),
    ("cards!(Four, Spades; Nine, Spades)", &[8,28], &cards!(Four, Spades; Nine, Spades)),
    ("cards!(Four, Spades; Nine, Hearts;)", &[8,29], &cards!(Four, Spades; Nine, Hearts;)),
    ("cards!(Four, Spades; Nine, Diamonds)", &[8,30], &cards!(Four, Spades; Nine, Diamonds)),
    ("cards!(Four, Spades; Nine, Clubs;)", &[8,31], &cards!(Four, Spades; Nine, Clubs;)),
    ("cards!(Four, Spades; Ten, Spades)", &[8,32], &cards!(Four, Spades; Ten, Spades)),
    ("cards!(Four, Spades; Ten, Hearts;)", &[8,33], &cards!(Four, Spades; Ten, Hearts;)),
    ("cards!(Four, Spades; Ten, Diamonds)", &[8,34], &cards!(Four, Spades; Ten, Diamonds)),
    ("cards!(Four, Spades; Ten, Clubs;)", &[8,35], &cards!(Four, Spades; Ten, Clubs;)),
    ("cards!(Four, Spades; Jack, Spades)", &[8,36], &cards!(Four, Spades; Jack, Spades)),
    ("cards!(Four, Spades; Jack, Hearts;)", &[8,37], &cards!(Four, Spades; Jack, Hearts;)),
    ("cards!(Four, Spades; Jack, Diamonds)", &[8,38], &cards!(Four, Spades; Jack, Diamonds)),
    ("cards!(Four, Spades; Jack, Clubs;)", &[8,39], &cards!(Four, Spades; Jack, Clubs;)),
    ("cards!(Four, Spades; Queen, Spades)", &[8,40], &cards!(Four, Spades; Queen, Spades)),
    ("cards!(Four, Spades; Queen, Hearts;)", &[8,41], &cards!(Four, Spades; Queen, Hearts;)),
    ("cards!(Four, Spades; Queen, Diamonds)", &[8,42], &cards!(Four, Spades; Queen, Diamonds)),
    ("cards!(Four, Spades; Queen, Clubs;)", &[8,43], &cards!(Four, Spades; Queen, Clubs;)),
    ("cards!(Four, Spades; King, Spades)", &[8,44], &cards!(Four, Spades; King, Spades)),
    ("cards!(Four, Spades; King, Hearts;)", &[8,45], &cards!(Four, Spades; King, Hearts;)),
    ("cards!(Four, Spades; King, Diamonds)", &[8,46], &cards!(Four, Spades; King, Diamonds)),
    ("cards!(Four, Spades; King, Clubs;)", &[8,47], &cards!(Four, Spades; King, Clubs;)),
    ("cards!(Four, Spades; Ace, Spades)", &[8,48], &cards!(Four, Spades; Ace, Spades)),
    ("cards!(Four, Spades; Ace, Hearts;)", &[8,49], &cards!(Four, Spades; Ace, Hearts;)),
    ("cards!(Four, Spades; Ace, Diamonds)", &[8,50], &cards!(Four, Spades; Ace, Diamonds)),
    ("cards!(Four, Spades; Ace, Clubs;)", &[8,51], &cards!(Four, Spades; Ace, Clubs;)),
    ("cards!(Four, Hearts; Two, Spades;)", &[9,0], &cards!(Four, Hearts; Two, Spades;)),
    ("cards!(Four, Hearts; Two, Hearts)", &[9,1], &cards!(Four, Hearts; Two, Hearts)),
    ("cards!(Four, Hearts; Two, Diamonds;)", &[9,2], &cards!(Four, Hearts; Two, Diamonds;)),
    ("cards!(Four, Hearts; Two, Clubs)", &[9,3], &cards!(Four, Hearts; Two, Clubs)),
    ("cards!(Four, Hearts; Three, Spades;)", &[9,4], &cards!(Four, Hearts; Three, Spades;)),
    ("cards!(Four, Hearts; Three, Hearts)", &[9,5], &cards!(Four, Hearts; Three, Hearts)),
    ("cards!(Four, Hearts; Three, Diamonds;)", &[9,6], &cards!(Four, Hearts; Three, Diamonds;)),
    ("cards!(Four, Hearts; Three, Clubs)", &[9,7], &cards!(Four, Hearts; Three, Clubs)),
    ("cards!(Four, Hearts; Four, Spades;)", &[9,8], &cards!(Four, Hearts; Four, Spades;)),
    ("cards!(Four, Hearts; Four, Hearts)", &[9,9], &cards!(Four, Hearts; Four, Hearts)),
    ("cards!(Four, Hearts; Four, Diamonds;)", &[9,10], &cards!(Four, Hearts; Four, Diamonds;)),
    ("cards!(Four, Hearts; Four, Clubs)", &[9,11], &cards!(Four, Hearts; Four, Clubs)),
    ("cards!(Four, Hearts; Five, Spades;)", &[9,12], &cards!(Four, Hearts; Five, Spades;)),
    ("cards!(Four, Hearts; Five, Hearts)", &[9,13], &cards!(Four, Hearts; Five, Hearts)),
    ("cards!(Four, Hearts; Five, Diamonds;)", &[9,14], &cards!(Four, Hearts; Five, Diamonds;)),
    ("cards!(Four, Hearts; Five, Clubs)", &[9,15], &cards!(Four, Hearts; Five, Clubs)),
    ("cards!(Four, Hearts; Six, Spades;)", &[9,16], &cards!(Four, Hearts; Six, Spades;)),
    ("cards!(Four, Hearts; Six, Hearts)", &[9,17], &cards!(Four, Hearts; Six, Hearts)),
    ("cards!(Four, Hearts; Six, Diamonds;)", &[9,18], &cards!(Four, Hearts; Six, Diamonds;)),
    ("cards!(Four, Hearts; Six, Clubs)", &[9,19], &cards!(Four, Hearts; Six, Clubs)),
    ("cards!(Four, Hearts; Seven, Spades;)", &[9,20], &cards!(Four, Hearts; Seven, Spades;)),
    ("cards!(Four, Hearts; Seven, Hearts)", &[9,21], &cards!(Four, Hearts; Seven, Hearts)),
    ("cards!(Four, Hearts; Seven, Diamonds;)", &[9,22], &cards!(Four, Hearts; Seven, Diamonds;)),
    ("cards!(Four, Hearts; Seven, Clubs)", &[9,23], &cards!(Four, Hearts; Seven, Clubs)),
    ("cards!(Four, Hearts; Eight, Spades;)", &[9,24], &cards!(Four, Hearts; Eight, Spades;)),
    ("cards!(Four, Hearts; Eight, Hearts)", &[9,25], &cards!(Four, Hearts; Eight, Hearts)),
    ("cards!(Four, Hearts; Eight, Diamonds;)", &[9,26], &cards!(Four, Hearts; Eight, Diamonds;)),
    ("cards!(Four, Hearts; Eight, Clubs)", &[9,27], &cards!(Four, Hearts; Eight, Clubs)),
    ("cards!(Four, Hearts; Nine, Spades;)", &[9,28], &cards!(Four, Hearts; Nine, Spades;)),
    ("cards!(Four, Hearts; Nine, Hearts)", &[9,29], &cards!(Four, Hearts; Nine, Hearts)),
    ("cards!(Four, Hearts; Nine, Diamonds;)", &[9,30], &cards!(Four, Hearts; Nine, Diamonds;)),
    ("cards!(Four, Hearts; Nine, Clubs)", &[9,31], &cards!(Four, Hearts; Nine, Clubs)),
    ("cards!(Four, Hearts; Ten, Spades;)", &[9,32], &cards!(Four, Hearts; Ten, Spades;)),
    ("cards!(Four, Hearts; Ten, Hearts)", &[9,33], &cards!(Four, Hearts; Ten, Hearts)),
    ("cards!(Four, Hearts; Ten, Diamonds;)", &[9,34], &cards!(Four, Hearts; Ten, Diamonds;)),
    ("cards!(Four, Hearts; Ten, Clubs)", &[9,35], &cards!(Four, Hearts; Ten, Clubs)),
    ("cards!(Four, Hearts; Jack, Spades;)", &[9,36], &cards!(Four, Hearts; Jack, Spades;)),
    ("cards!(Four, Hearts; Jack, Hearts)", &[9,37], &cards!(Four, Hearts; Jack, Hearts)),
    ("cards!(Four, Hearts; Jack, Diamonds;)", &[9,38], &cards!(Four, Hearts; Jack, Diamonds;)),
    ("cards!(Four, Hearts; Jack, Clubs)", &[9,39], &cards!(Four, Hearts; Jack, Clubs)),
    ("cards!(Four, Hearts; Queen, Spades;)", &[9,40], &cards!(Four, Hearts; Queen, Spades;)),
    ("cards!(Four, Hearts; Queen, Hearts)", &[9,41], &cards!(Four, Hearts; Queen, Hearts)),
    ("cards!(Four, Hearts; Queen, Diamonds;)", &[9,42], &cards!(Four, Hearts; Queen, Diamonds;)),
    ("cards!(Four, Hearts; Queen, Clubs)", &[9,43], &cards!(Four, Hearts; Queen, Clubs)),
    ("cards!(Four, Hearts; King, Spades;)", &[9,44], &cards!(Four, Hearts; King, Spades;)),
    ("cards!(Four, Hearts; King, Hearts)", &[9,45], &cards!(Four, Hearts; King, Hearts)),
    ("cards!(Four, Hearts; King, Diamonds;)", &[9,46], &cards!(Four, Hearts; King, Diamonds;)),
    ("cards!(Four, Hearts; King, Clubs)", &[9,47], &cards!(Four, Hearts; King, Clubs)),
    ("cards!(Four, Hearts; Ace, Spades;)", &[9,48], &cards!(Four, Hearts; Ace, Spades;)),
    ("cards!(Four, Hearts; Ace, Hearts)", &[9,49], &cards!(Four, Hearts; Ace, Hearts)),
    ("cards!(Four, Hearts; Ace, Diamonds;)", &[9,50], &cards!(Four, Hearts; Ace, Diamonds;)),
    ("cards!(Four, Hearts; Ace, Clubs)", &[9,51], &cards!(Four, Hearts; Ace, Clubs)),
    ("cards!(Four, Diamonds; Two, Spades)", &[10,0], &cards!(Four, Diamonds; Two, Spades)),
    ("cards!(Four, Diamonds; Two, Hearts;)", &[10,1], &cards!(Four, Diamonds; Two, Hearts;)),
    ("cards!(Four, Diamonds; Two, Diamonds)", &[10,2], &cards!(Four, Diamonds; Two, Diamonds)),
    ("cards!(Four, Diamonds; Two, Clubs;)", &[10,3], &cards!(Four, Diamonds; Two, Clubs;)),
    ("cards!(Four, Diamonds; Three, Spades)", &[10,4], &cards!(Four, Diamonds; Three, Spades)),
    ("cards!(Four, Diamonds; Three, Hearts;)", &[10,5], &cards!(Four, Diamonds; Three, Hearts;)),
    ("cards!(Four, Diamonds; Three, Diamonds)", &[10,6], &cards!(Four, Diamonds; Three, Diamonds)),
    ("cards!(Four, Diamonds; Three, Clubs;)", &[10,7], &cards!(Four, Diamonds; Three, Clubs;)),
    ("cards!(Four, Diamonds; Four, Spades)", &[10,8], &cards!(Four, Diamonds; Four, Spades)),
    ("cards!(Four, Diamonds; Four, Hearts;)", &[10,9], &cards!(Four, Diamonds; Four, Hearts;)),
    ("cards!(Four, Diamonds; Four, Diamonds)", &[10,10], &cards!(Four, Diamonds; Four, Diamonds)),
    ("cards!(Four, Diamonds; Four, Clubs;)", &[10,11], &cards!(Four, Diamonds; Four, Clubs;)),
    ("cards!(Four, Diamonds; Five, Spades)", &[10,12], &cards!(Four, Diamonds; Five, Spades)),
    ("cards!(Four, Diamonds; Five, Hearts;)", &[10,13], &cards!(Four, Diamonds; Five, Hearts;)),
    ("cards!(Four, Diamonds; Five, Diamonds)", &[10,14], &cards!(Four, Diamonds; Five, Diamonds)),
    ("cards!(Four, Diamonds; Five, Clubs;)", &[10,15], &cards!(Four, Diamonds; Five, Clubs;)),
    ("cards!(Four, Diamonds; Six, Spades)", &[10,16], &cards!(Four, Diamonds; Six, Spades)),
    ("cards!(Four, Diamonds; Six, Hearts;)", &[10,17], &cards!(Four, Diamonds; Six, Hearts;)),
    ("cards!(Four, Diamonds; Six, Diamonds)", &[10,18], &cards!(Four, Diamonds; Six, Diamonds)),
    ("cards!(Four, Diamonds; Six, Clubs;)", &[10,19], &cards!(Four, Diamonds; Six, Clubs;)),
    ("cards!(Four, Diamonds; Seven, Spades)", &[10,20], &cards!(Four, Diamonds; Seven, Spades)),
    ("cards!(Four, Diamonds; Seven, Hearts;)", &[10,21], &cards!(Four, Diamonds; Seven, Hearts;)),
    ("cards!(Four, Diamonds; Seven, Diamonds)", &[10,22], &cards!(Four, Diamonds; Seven, Diamonds)),
    ("cards!(Four, Diamonds; Seven, Clubs;)", &[10,23], &cards!(Four, Diamonds; Seven, Clubs;)),
    ("cards!(Four, Diamonds; Eight, Spades)", &[10,24], &cards!(Four, Diamonds; Eight, Spades)),
    ("cards!(Four, Diamonds; Eight, Hearts;)", &[10,25], &cards!(Four, Diamonds; Eight, Hearts;)),
    ("cards!(Four, Diamonds; Eight, Diamonds)", &[10,26], &cards!(Four, Diamonds; Eight, Diamonds)),
    ("cards!(Four, Diamonds; Eight, Clubs;)", &[10,27], &cards!(Four, Diamonds; Eight, Clubs;)),
    ("cards!(Four, Diamonds; Nine, Spades)", &[10,28], &cards!(Four, Diamonds; Nine, Spades)),
    ("cards!(Four, Diamonds; Nine, Hearts;)", &[10,29], &cards!(Four, Diamonds; Nine, Hearts;)),
    ("cards!(Four, Diamonds; Nine, Diamonds)", &[10,30], &cards!(Four, Diamonds; Nine, Diamonds)),
    ("cards!(Four, Diamonds; Nine, Clubs;)", &[10,31], &cards!(Four, Diamonds; Nine, Clubs;)),
    ("cards!(Four, Diamonds; Ten, Spades)", &[10,32], &cards!(Four, Diamonds; Ten, Spades)),
    ("cards!(Four, Diamonds; Ten, Hearts;)", &[10,33], &cards!(Four, Diamonds; Ten, Hearts;)),
    ("cards!(Four, Diamonds; Ten, Diamonds)", &[10,34], &cards!(Four, Diamonds; Ten, Diamonds)),
    ("cards!(Four, Diamonds; Ten, Clubs;)", &[10,35], &cards!(Four, Diamonds; Ten, Clubs;)),
    ("cards!(Four, Diamonds; Jack, Spades)", &[10,36], &cards!(Four, Diamonds; Jack, Spades)),
    ("cards!(Four, Diamonds; Jack, Hearts;)", &[10,37], &cards!(Four, Diamonds; Jack, Hearts;)),
    ("cards!(Four, Diamonds; Jack, Diamonds)", &[10,38], &cards!(Four, Diamonds; Jack, Diamonds)),
    ("cards!(Four, Diamonds; Jack, Clubs;)", &[10,39], &cards!(Four, Diamonds; Jack, Clubs;)),
    ("cards!(Four, Diamonds; Queen, Spades)", &[10,40], &cards!(Four, Diamonds; Queen, Spades)),
    ("cards!(Four, Diamonds; Queen, Hearts;)", &[10,41], &cards!(Four, Diamonds; Queen, Hearts;)),
    ("cards!(Four, Diamonds; Queen, Diamonds)", &[10,42], &cards!(Four, Diamonds; Queen, Diamonds)),
    ("cards!(Four, Diamonds; Queen, Clubs;)", &[10,43], &cards!(Four, Diamonds; Queen, Clubs;)),
    ("cards!(Four, Diamonds; King, Spades)", &[10,44], &cards!(Four, Diamonds; King, Spades)),
    ("cards!(Four, Diamonds; King, Hearts;)", &[10,45], &cards!(Four, Diamonds; King, Hearts;)),
    ("cards!(Four, Diamonds; King, Diamonds)", &[10,46], &cards!(Four, Diamonds; King, Diamonds)),
    ("cards!(Four, Diamonds; King, Clubs;)", &[10,47], &cards!(Four, Diamonds; King, Clubs;)),
    ("cards!(Four, Diamonds; Ace, Spades)", &[10,48], &cards!(Four, Diamonds; Ace, Spades)),
    ("cards!(Four, Diamonds; Ace, Hearts;)", &[10,49], &cards!(Four, Diamonds; Ace, Hearts;)),
    ("cards!(Four, Diamonds; Ace, Diamonds)", &[10,50], &cards!(Four, Diamonds; Ace, Diamonds)),
    ("cards!(Four, Diamonds; Ace, Clubs;)", &[10,51], &cards!(Four, Diamonds; Ace, Clubs;)),
    ("cards!(Four, Clubs; Two, Spades;)", &[11,0], &cards!(Four, Clubs; Two, Spades;)),
    ("cards!(Four, Clubs; Two, Hearts)", &[11,1], &cards!(Four, Clubs; Two, Hearts)),
    ("cards!(Four, Clubs; Two, Diamonds;)", &[11,2], &cards!(Four, Clubs; Two, Diamonds;)),
    ("cards!(Four, Clubs; Two, Clubs)", &[11,3], &cards!(Four, Clubs; Two, Clubs)),
    ("cards!(Four, Clubs; Three, Spades;)", &[11,4], &cards!(Four, Clubs; Three, Spades;)),
    ("cards!(Four, Clubs; Three, Hearts)", &[11,5], &cards!(Four, Clubs; Three, Hearts)),
    ("cards!(Four, Clubs; Three, Diamonds;)", &[11,6], &cards!(Four, Clubs; Three, Diamonds;)),
    ("cards!(Four, Clubs; Three, Clubs)", &[11,7], &cards!(Four, Clubs; Three, Clubs)),
    ("cards!(Four, Clubs; Four, Spades;)", &[11,8], &cards!(Four, Clubs; Four, Spades;)),
    ("cards!(Four, Clubs; Four, Hearts)", &[11,9], &cards!(Four, Clubs; Four, Hearts)),
    ("cards!(Four, Clubs; Four, Diamonds;)", &[11,10], &cards!(Four, Clubs; Four, Diamonds;)),
    ("cards!(Four, Clubs; Four, Clubs)", &[11,11], &cards!(Four, Clubs; Four, Clubs)),
    ("cards!(Four, Clubs; Five, Spades;)", &[11,12], &cards!(Four, Clubs; Five, Spades;)),
    ("cards!(Four, Clubs; Five, Hearts)", &[11,13], &cards!(Four, Clubs; Five, Hearts)),
    ("cards!(Four, Clubs; Five, Diamonds;)", &[11,14], &cards!(Four, Clubs; Five, Diamonds;)),
    ("cards!(Four, Clubs; Five, Clubs)", &[11,15], &cards!(Four, Clubs; Five, Clubs)),
    ("cards!(Four, Clubs; Six, Spades;)", &[11,16], &cards!(Four, Clubs; Six, Spades;)),
    ("cards!(Four, Clubs; Six, Hearts)", &[11,17], &cards!(Four, Clubs; Six, Hearts)),
    ("cards!(Four, Clubs; Six, Diamonds;)", &[11,18], &cards!(Four, Clubs; Six, Diamonds;)),
    ("cards!(Four, Clubs; Six, Clubs)", &[11,19], &cards!(Four, Clubs; Six, Clubs)),
    ("cards!(Four, Clubs; Seven, Spades;)", &[11,20], &cards!(Four, Clubs; Seven, Spades;)),
    ("cards!(Four, Clubs; Seven, Hearts)", &[11,21], &cards!(Four, Clubs; Seven, Hearts)),
    ("cards!(Four, Clubs; Seven, Diamonds;)", &[11,22], &cards!(Four, Clubs; Seven, Diamonds;)),
    ("cards!(Four, Clubs; Seven, Clubs)", &[11,23], &cards!(Four, Clubs; Seven, Clubs)),
    ("cards!(Four, Clubs; Eight, Spades;)", &[11,24], &cards!(Four, Clubs; Eight, Spades;)),
    ("cards!(Four, Clubs; Eight, Hearts)", &[11,25], &cards!(Four, Clubs; Eight, Hearts)),
    ("cards!(Four, Clubs; Eight, Diamonds;)", &[11,26], &cards!(Four, Clubs; Eight, Diamonds;)),
    ("cards!(Four, Clubs; Eight, Clubs)", &[11,27], &cards!(Four, Clubs; Eight, Clubs)),
    ("cards!(Four, Clubs; Nine, Spades;)", &[11,28], &cards!(Four, Clubs; Nine, Spades;)),
    ("cards!(Four, Clubs; Nine, Hearts)", &[11,29], &cards!(Four, Clubs; Nine, Hearts)),
    ("cards!(Four, Clubs; Nine, Diamonds;)", &[11,30], &cards!(Four, Clubs; Nine, Diamonds;)),
    ("cards!(Four, Clubs; Nine, Clubs)", &[11,31], &cards!(Four, Clubs; Nine, Clubs)),
    ("cards!(Four, Clubs; Ten, Spades;)", &[11,32], &cards!(Four, Clubs; Ten, Spades;)),
    ("cards!(Four, Clubs; Ten, Hearts)", &[11,33], &cards!(Four, Clubs; Ten, Hearts)),
    ("cards!(Four, Clubs; Ten, Diamonds;)", &[11,34], &cards!(Four, Clubs; Ten, Diamonds;)),
    ("cards!(Four, Clubs; Ten, Clubs)", &[11,35], &cards!(Four, Clubs; Ten, Clubs)),
    ("cards!(Four, Clubs; Jack, Spades;)", &[11,36], &cards!(Four, Clubs; Jack, Spades;)),
    ("cards!(Four, Clubs; Jack, Hearts)", &[11,37], &cards!(Four, Clubs; Jack, Hearts)),
    ("cards!(Four, Clubs; Jack, Diamonds;)", &[11,38], &cards!(Four, Clubs; Jack, Diamonds;)),
    ("cards!(Four, Clubs; Jack, Clubs)", &[11,39], &cards!(Four, Clubs; Jack, Clubs)),
    ("cards!(Four, Clubs; Queen, Spades;)", &[11,40], &cards!(Four, Clubs; Queen, Spades;)),
    ("cards!(Four, Clubs; Queen, Hearts)", &[11,41], &cards!(Four, Clubs; Queen, Hearts)),
    ("cards!(Four, Clubs; Queen, Diamonds;)", &[11,42], &cards!(Four, Clubs; Queen, Diamonds;)),
    ("cards!(Four, Clubs; Queen, Clubs)", &[11,43], &cards!(Four, Clubs; Queen, Clubs)),
    ("cards!(Four, Clubs; King, Spades;)", &[11,44], &cards!(Four, Clubs; King, Spades;)),
    ("cards!(Four, Clubs; King, Hearts)", &[11,45], &cards!(Four, Clubs; King, Hearts)),
    ("cards!(Four, Clubs; King, Diamonds;)", &[11,46], &cards!(Four, Clubs; King, Diamonds;)),
    ("cards!(Four, Clubs; King, Clubs)", &[11,47], &cards!(Four, Clubs; King, Clubs)),
    ("cards!(Four, Clubs; Ace, Spades;)", &[11,48], &cards!(Four, Clubs; Ace, Spades;)),
    ("cards!(Four, Clubs; Ace, Hearts)", &[11,49], &cards!(Four, Clubs; Ace, Hearts)),
    ("cards!(Four, Clubs; Ace, Diamonds;)", &[11,50], &cards!(Four, Clubs; Ace, Diamonds;)),
    ("cards!(Four, Clubs; Ace, Clubs)", &[11,51], &cards!(Four, Clubs; Ace, Clubs)),
    ("cards!(Five, Spades; Two, Spades)", &[12,0], &cards!(Five, Spades; Two, Spades)),
    ("cards!(Five, Spades; Two, Hearts;)", &[12,1], &cards!(Five, Spades; Two, Hearts;)),
    ("cards!(Five, Spades; Two, Diamonds)", &[12,2], &cards!(Five, Spades; Two, Diamonds)),
    ("cards!(Five, Spades; Two, Clubs;)", &[12,3], &cards!(Five, Spades; Two, Clubs;)),
    ("cards!(Five, Spades; Three, Spades)", &[12,4], &cards!(Five, Spades; Three, Spades)),
    ("cards!(Five, Spades; Three, Hearts;)", &[12,5], &cards!(Five, Spades; Three, Hearts;)),
    ("cards!(Five, Spades; Three, Diamonds)", &[12,6], &cards!(Five, Spades; Three, Diamonds)),
    ("cards!(Five, Spades; Three, Clubs;)", &[12,7], &cards!(Five, Spades; Three, Clubs;)),
    ("cards!(Five, Spades; Four, Spades)", &[12,8], &cards!(Five, Spades; Four, Spades)),
    ("cards!(Five, Spades; Four, Hearts;)", &[12,9], &cards!(Five, Spades; Four, Hearts;)),
    ("cards!(Five, Spades; Four, Diamonds)", &[12,10], &cards!(Five, Spades; Four, Diamonds)),
    ("cards!(Five, Spades; Four, Clubs;)", &[12,11], &cards!(Five, Spades; Four, Clubs;)),
    ("cards!(Five, Spades; Five, Spades)", &[12,12], &cards!(Five, Spades; Five, Spades)),
    ("cards!(Five, Spades; Five, Hearts;)", &[12,13], &cards!(Five, Spades; Five, Hearts;)),
    ("cards!(Five, Spades; Five, Diamonds)", &[12,14], &cards!(Five, Spades; Five, Diamonds)),
    ("cards!(Five, Spades; Five, Clubs;)", &[12,15], &cards!(Five, Spades; Five, Clubs;)),
    ("cards!(Five, Spades; Six, Spades)", &[12,16], &cards!(Five, Spades; Six, Spades)),
    ("cards!(Five, Spades; Six, Hearts;)", &[12,17], &cards!(Five, Spades; Six, Hearts;)),
    ("cards!(Five, Spades; Six, Diamonds)", &[12,18], &cards!(Five, Spades; Six, Diamonds)),
    ("cards!(Five, Spades; Six, Clubs;)", &[12,19], &cards!(Five, Spades; Six, Clubs;)),
    ("cards!(Five, Spades; Seven, Spades)", &[12,20], &cards!(Five, Spades; Seven, Spades)),
    ("cards!(Five, Spades; Seven, Hearts;)", &[12,21], &cards!(Five, Spades; Seven, Hearts;)),
    ("cards!(Five, Spades; Seven, Diamonds)", &[12,22], &cards!(Five, Spades; Seven, Diamonds)),
    ("cards!(Five, Spades; Seven, Clubs;)", &[12,23], &cards!(Five, Spades; Seven, Clubs;)),
    ("cards!(Five, Spades; Eight, Spades)", &[12,24], &cards!(Five, Spades; Eight, Spades)),
    ("cards!(Five, Spades; Eight, Hearts;)", &[12,25], &cards!(Five, Spades; Eight, Hearts;)),
    ("cards!(Five, Spades; Eight, Diamonds)", &[12,26], &cards!(Five, Spades; Eight, Diamonds)),
    ("cards!(Five, Spades; Eight, Clubs;)", &[12,27], &cards!(Five, Spades; Eight, Clubs;)),
    ("cards!(Five, Spades; Nine, Spades)", &[12,28], &cards!(Five, Spades; Nine, Spades)),
    ("cards!(Five, Spades; Nine, Hearts;)", &[12,29], &cards!(Five, Spades; Nine, Hearts;)),
    ("cards!(Five, Spades; Nine, Diamonds)", &[12,30], &cards!(Five, Spades; Nine, Diamonds)),
    ("cards!(Five, Spades; Nine, Clubs;)", &[12,31], &cards!(Five, Spades; Nine, Clubs;)),
    ("cards!(Five, Spades; Ten, Spades)", &[12,32], &cards!(Five, Spades; Ten, Spades)),
    ("cards!(Five, Spades; Ten, Hearts;)", &[12,33], &cards!(Five, Spades; Ten, Hearts;)),
    ("cards!(Five, Spades; Ten, Diamonds)", &[12,34], &cards!(Five, Spades; Ten, Diamonds)),
    ("cards!(Five, Spades; Ten, Clubs;)", &[12,35], &cards!(Five, Spades; Ten, Clubs;)),
    ("cards!(Five, Spades; Jack, Spades)", &[12,36], &cards!(Five, Spades; Jack, Spades)),
    ("cards!(Five, Spades; Jack, Hearts;)", &[12,37], &cards!(Five, Spades; Jack, Hearts;)),
    ("cards!(Five, Spades; Jack, Diamonds)", &[12,38], &cards!(Five, Spades; Jack, Diamonds)),
    ("cards!(Five, Spades; Jack, Clubs;)", &[12,39], &cards!(Five, Spades; Jack, Clubs;)),
    ("cards!(Five, Spades; Queen, Spades)", &[12,40], &cards!(Five, Spades; Queen, Spades)),
    ("cards!(Five, Spades; Queen, Hearts;)", &[12,41], &cards!(Five, Spades; Queen, Hearts;)),
    ("cards!(Five, Spades; Queen, Diamonds)", &[12,42], &cards!(Five, Spades; Queen, Diamonds)),
    ("cards!(Five, Spades; Queen, Clubs;)", &[12,43], &cards!(Five, Spades; Queen, Clubs;)),
    ("cards!(Five, Spades; King, Spades)", &[12,44], &cards!(Five, Spades; King, Spades)),
    ("cards!(Five, Spades; King, Hearts;)", &[12,45], &cards!(Five, Spades; King, Hearts;)),
    ("cards!(Five, Spades; King, Diamonds)", &[12,46], &cards!(Five, Spades; King, Diamonds)),
    ("cards!(Five, Spades; King, Clubs;)", &[12,47], &cards!(Five, Spades; King, Clubs;)),
    ("cards!(Five, Spades; Ace, Spades)", &[12,48], &cards!(Five, Spades; Ace, Spades)),
    ("cards!(Five, Spades; Ace, Hearts;)", &[12,49], &cards!(Five, Spades; Ace, Hearts;)),
    ("cards!(Five, Spades; Ace, Diamonds)", &[12,50], &cards!(Five, Spades; Ace, Diamonds)),
    ("cards!(Five, Spades; Ace, Clubs;)", &[12,51], &cards!(Five, Spades; Ace, Clubs;)),
    ("cards!(Five, Hearts; Two, Spades;)", &[13,0], &cards!(Five, Hearts; Two, Spades;)),
    ("cards!(Five, Hearts; Two, Hearts)", &[13,1], &cards!(Five, Hearts; Two, Hearts)),
    ("cards!(Five, Hearts; Two, Diamonds;)", &[13,2], &cards!(Five, Hearts; Two, Diamonds;)),
    ("cards!(Five, Hearts; Two, Clubs)", &[13,3], &cards!(Five, Hearts; Two, Clubs)),
    ("cards!(Five, Hearts; Three, Spades;)", &[13,4], &cards!(Five, Hearts; Three, Spades;)),
    ("cards!(Five, Hearts; Three, Hearts)", &[13,5], &cards!(Five, Hearts; Three, Hearts)),
    ("cards!(Five, Hearts; Three, Diamonds;)", &[13,6], &cards!(Five, Hearts; Three, Diamonds;)),
    ("cards!(Five, Hearts; Three, Clubs)", &[13,7], &cards!(Five, Hearts; Three, Clubs)),
    ("cards!(Five, Hearts; Four, Spades;)", &[13,8], &cards!(Five, Hearts; Four, Spades;)),
    ("cards!(Five, Hearts; Four, Hearts)", &[13,9], &cards!(Five, Hearts; Four, Hearts)),
    ("cards!(Five, Hearts; Four, Diamonds;)", &[13,10], &cards!(Five, Hearts; Four, Diamonds;)),
    ("cards!(Five, Hearts; Four, Clubs)", &[13,11], &cards!(Five, Hearts; Four, Clubs)),
    ("cards!(Five, Hearts; Five, Spades;)", &[13,12], &cards!(Five, Hearts; Five, Spades;)),
    ("cards!(Five, Hearts; Five, Hearts)", &[13,13], &cards!(Five, Hearts; Five, Hearts)),
    ("cards!(Five, Hearts; Five, Diamonds;)", &[13,14], &cards!(Five, Hearts; Five, Diamonds;)),
    ("cards!(Five, Hearts; Five, Clubs)", &[13,15], &cards!(Five, Hearts; Five, Clubs)),
    ("cards!(Five, Hearts; Six, Spades;)", &[13,16], &cards!(Five, Hearts; Six, Spades;)),
    ("cards!(Five, Hearts; Six, Hearts)", &[13,17], &cards!(Five, Hearts; Six, Hearts)),
    ("cards!(Five, Hearts; Six, Diamonds;)", &[13,18], &cards!(Five, Hearts; Six, Diamonds;)),
    ("cards!(Five, Hearts; Six, Clubs)", &[13,19], &cards!(Five, Hearts; Six, Clubs)),
    ("cards!(Five, Hearts; Seven, Spades;)", &[13,20], &cards!(Five, Hearts; Seven, Spades;)),
    ("cards!(Five, Hearts; Seven, Hearts)", &[13,21], &cards!(Five, Hearts; Seven, Hearts)),
    ("cards!(Five, Hearts; Seven, Diamonds;)", &[13,22], &cards!(Five, Hearts; Seven, Diamonds;)),
    ("cards!(Five, Hearts; Seven, Clubs)", &[13,23], &cards!(Five, Hearts; Seven, Clubs)),
    ("cards!(Five, Hearts; Eight, Spades;)", &[13,24], &cards!(Five, Hearts; Eight, Spades;)),
    ("cards!(Five, Hearts; Eight, Hearts)", &[13,25], &cards!(Five, Hearts; Eight, Hearts)),
    ("cards!(Five, Hearts; Eight, Diamonds;)", &[13,26], &cards!(Five, Hearts; Eight, Diamonds;)),
    ("cards!(Five, Hearts; Eight, Clubs)", &[13,27], &cards!(Five, Hearts; Eight, Clubs)),
    ("cards!(Five, Hearts; Nine, Spades;)", &[13,28], &cards!(Five, Hearts; Nine, Spades;)),
    ("cards!(Five, Hearts; Nine, Hearts)", &[13,29], &cards!(Five, Hearts; Nine, Hearts)),
    ("cards!(Five, Hearts; Nine, Diamonds;)", &[13,30], &cards!(Five, Hearts; Nine, Diamonds;)),
    ("cards!(Five, Hearts; Nine, Clubs)", &[13,31], &cards!(Five, Hearts; Nine, Clubs)),
    ("cards!(Five, Hearts; Ten, Spades;)", &[13,32], &cards!(Five, Hearts; Ten, Spades;)),
    ("cards!(Five, Hearts; Ten, Hearts)", &[13,33], &cards!(Five, Hearts; Ten, Hearts)),
    ("cards!(Five, Hearts; Ten, Diamonds;)", &[13,34], &cards!(Five, Hearts; Ten, Diamonds;)),
    ("cards!(Five, Hearts; Ten, Clubs)", &[13,35], &cards!(Five, Hearts; Ten, Clubs)),
    ("cards!(Five, Hearts; Jack, Spades;)", &[13,36], &cards!(Five, Hearts; Jack, Spades;)),
    ("cards!(Five, Hearts; Jack, Hearts)", &[13,37], &cards!(Five, Hearts; Jack, Hearts)),
    ("cards!(Five, Hearts; Jack, Diamonds;)", &[13,38], &cards!(Five, Hearts; Jack, Diamonds;)),
    ("cards!(Five, Hearts; Jack, Clubs)", &[13,39], &cards!(Five, Hearts; Jack, Clubs)),
    ("cards!(Five, Hearts; Queen, Spades;)", &[13,40], &cards!(Five, Hearts; Queen, Spades;)),
    ("cards!(Five, Hearts; Queen, Hearts)", &[13,41], &cards!(Five, Hearts; Queen, Hearts)),
    ("cards!(Five, Hearts; Queen, Diamonds;)", &[13,42], &cards!(Five, Hearts; Queen, Diamonds;)),
    ("cards!(Five, Hearts; Queen, Clubs)", &[13,43], &cards!(Five, Hearts; Queen, Clubs)),
    ("cards!(Five, Hearts; King, Spades;)", &[13,44], &cards!(Five, Hearts; King, Spades;)),
    ("cards!(Five, Hearts; King, Hearts)", &[13,45], &cards!(Five, Hearts; King, Hearts)),
    ("cards!(Five, Hearts; King, Diamonds;)", &[13,46], &cards!(Five, Hearts; King, Diamonds;)),
    ("cards!(Five, Hearts; King, Clubs)", &[13,47], &cards!(Five, Hearts; King, Clubs)),
    ("cards!(Five, Hearts; Ace, Spades;)", &[13,48], &cards!(Five, Hearts; Ace, Spades;)),
    ("cards!(Five, Hearts; Ace, Hearts)", &[13,49], &cards!(Five, Hearts; Ace, Hearts)),
    ("cards!(Five, Hearts; Ace, Diamonds;)", &[13,50], &cards!(Five, Hearts; Ace, Diamonds;)),
    ("cards!(Five, Hearts; Ace, Clubs)", &[13,51], &cards!(Five, Hearts; Ace, Clubs)),
    ("cards!(Five, Diamonds; Two, Spades)", &[14,0], &cards!(Five, Diamonds; Two, Spades)),
    ("cards!(Five, Diamonds; Two, Hearts;)", &[14,1], &cards!(Five, Diamonds; Two, Hearts;)),
    ("cards!(Five, Diamonds; Two, Diamonds)", &[14,2], &cards!(Five, Diamonds; Two, Diamonds)),
    ("cards!(Five, Diamonds; Two, Clubs;)", &[14,3], &cards!(Five, Diamonds; Two, Clubs;)),
    ("cards!(Five, Diamonds; Three, Spades)", &[14,4], &cards!(Five, Diamonds; Three, Spades)),
    ("cards!(Five, Diamonds; Three, Hearts;)", &[14,5], &cards!(Five, Diamonds; Three, Hearts;)),
    ("cards!(Five, Diamonds; Three, Diamonds)", &[14,6], &cards!(Five, Diamonds; Three, Diamonds)),
    ("cards!(Five, Diamonds; Three, Clubs;)", &[14,7], &cards!(Five, Diamonds; Three, Clubs;)),
    ("cards!(Five, Diamonds; Four, Spades)", &[14,8], &cards!(Five, Diamonds; Four, Spades)),
    ("cards!(Five, Diamonds; Four, Hearts;)", &[14,9], &cards!(Five, Diamonds; Four, Hearts;)),
    ("cards!(Five, Diamonds; Four, Diamonds)", &[14,10], &cards!(Five, Diamonds; Four, Diamonds)),
    ("cards!(Five, Diamonds; Four, Clubs;)", &[14,11], &cards!(Five, Diamonds; Four, Clubs;)),
    ("cards!(Five, Diamonds; Five, Spades)", &[14,12], &cards!(Five, Diamonds; Five, Spades)),
    ("cards!(Five, Diamonds; Five, Hearts;)", &[14,13], &cards!(Five, Diamonds; Five, Hearts;)),
    ("cards!(Five, Diamonds; Five, Diamonds)", &[14,14], &cards!(Five, Diamonds; Five, Diamonds)),
    ("cards!(Five, Diamonds; Five, Clubs;)", &[14,15], &cards!(Five, Diamonds; Five, Clubs;)),
    ("cards!(Five, Diamonds; Six, Spades)", &[14,16], &cards!(Five, Diamonds; Six, Spades)),
    ("cards!(Five, Diamonds; Six, Hearts;)", &[14,17], &cards!(Five, Diamonds; Six, Hearts;)),
    ("cards!(Five, Diamonds; Six, Diamonds)", &[14,18], &cards!(Five, Diamonds; Six, Diamonds)),
    ("cards!(Five, Diamonds; Six, Clubs;)", &[14,19], &cards!(Five, Diamonds; Six, Clubs;)),
    ("cards!(Five, Diamonds; Seven, Spades)", &[14,20], &cards!(Five, Diamonds; Seven, Spades)),
    ("cards!(Five, Diamonds; Seven, Hearts;)", &[14,21], &cards!(Five, Diamonds; Seven, Hearts;)),
    ("cards!(Five, Diamonds; Seven, Diamonds)", &[14,22], &cards!(Five, Diamonds; Seven, Diamonds)),
    ("cards!(Five, Diamonds; Seven, Clubs;)", &[14,23], &cards!(Five, Diamonds; Seven, Clubs;)),
    ("cards!(Five, Diamonds; Eight, Spades)", &[14,24], &cards!(Five, Diamonds; Eight, Spades)),
    ("cards!(Five, Diamonds; Eight, Hearts;)", &[14,25], &cards!(Five, Diamonds; Eight, Hearts;)),
    ("cards!(Five, Diamonds; Eight, Diamonds)", &[14,26], &cards!(Five, Diamonds; Eight, Diamonds)),
    ("cards!(Five, Diamonds; Eight, Clubs;)", &[14,27], &cards!(Five, Diamonds; Eight, Clubs;)),
    ("cards!(Five, Diamonds; Nine, Spades)", &[14,28], &cards!(Five, Diamonds; Nine, Spades)),
    ("cards!(Five, Diamonds; Nine, Hearts;)", &[14,29], &cards!(Five, Diamonds; Nine, Hearts;)),
    ("cards!(Five, Diamonds; Nine, Diamonds)", &[14,30], &cards!(Five, Diamonds; Nine, Diamonds)),
    ("cards!(Five, Diamonds; Nine, Clubs;)", &[14,31], &cards!(Five, Diamonds; Nine, Clubs;)),
    ("cards!(Five, Diamonds; Ten, Spades)", &[14,32], &cards!(Five, Diamonds; Ten, Spades)),
    ("cards!(Five, Diamonds; Ten, Hearts;)", &[14,33], &cards!(Five, Diamonds; Ten, Hearts;)),
    ("cards!(Five, Diamonds; Ten, Diamonds)", &[14,34], &cards!(Five, Diamonds; Ten, Diamonds)),
    ("cards!(Five, Diamonds; Ten, Clubs;)", &[14,35], &cards!(Five, Diamonds; Ten, Clubs;)),
    ("cards!(Five, Diamonds; Jack, Spades)", &[14,36], &cards!(Five, Diamonds; Jack, Spades)),
    ("cards!(Five, Diamonds; Jack, Hearts;)", &[14,37], &cards!(Five, Diamonds; Jack, Hearts;)),
    ("cards!(Five, Diamonds; Jack, Diamonds)", &[14,38], &cards!(Five, Diamonds; Jack, Diamonds)),
    ("cards!(Five, Diamonds; Jack, Clubs;)", &[14,39], &cards!(Five, Diamonds; Jack, Clubs;)),
    ("cards!(Five, Diamonds; Queen, Spades)", &[14,40], &cards!(Five, Diamonds; Queen, Spades)),
    ("cards!(Five, Diamonds; Queen, Hearts;)", &[14,41], &cards!(Five, Diamonds; Queen, Hearts;)),
    ("cards!(Five, Diamonds; Queen, Diamonds)", &[14,42], &cards!(Five, Diamonds; Queen, Diamonds)),
    ("cards!(Five, Diamonds; Queen, Clubs;)", &[14,43], &cards!(Five, Diamonds; Queen, Clubs;)),
    ("cards!(Five, Diamonds; King, Spades)", &[14,44], &cards!(Five, Diamonds; King, Spades)),
    ("cards!(Five, Diamonds; King, Hearts;)", &[14,45], &cards!(Five, Diamonds; King, Hearts;)),
    ("cards!(Five, Diamonds; King, Diamonds)", &[14,46], &cards!(Five, Diamonds; King, Diamonds)),
    ("cards!(Five, Diamonds; King, Clubs;)", &[14,47], &cards!(Five, Diamonds; King, Clubs;)),
    ("cards!(Five, Diamonds; Ace, Spades)", &[14,48], &cards!(Five, Diamonds; Ace, Spades)),
    ("cards!(Five, Diamonds; Ace, Hearts;)", &[14,49], &cards!(Five, Diamonds; Ace, Hearts;)),
    ("cards!(Five, Diamonds; Ace, Diamonds)", &[14,50], &cards!(Five, Diamonds; Ace, Diamonds)),
    ("cards!(Five, Diamonds; Ace, Clubs;)", &[14,51], &cards!(Five, Diamonds; Ace, Clubs;)),
    ("cards!(Five, Clubs; Two, Spades;)", &[15,0], &cards!(Five, Clubs; Two, Spades;)),
    ("cards!(Five, Clubs; Two, Hearts)", &[15,1], &cards!(Five, Clubs; Two, Hearts)),
    ("cards!(Five, Clubs; Two, Diamonds;)", &[15,2], &cards!(Five, Clubs; Two, Diamonds;)),
    ("cards!(Five, Clubs; Two, Clubs)", &[15,3], &cards!(Five, Clubs; Two, Clubs)),
    ("cards!(Five, Clubs; Three, Spades;)", &[15,4], &cards!(Five, Clubs; Three, Spades;)),
    ("cards!(Five, Clubs; Three, Hearts)", &[15,5], &cards!(Five, Clubs; Three, Hearts)),
    ("cards!(Five, Clubs; Three, Diamonds;)", &[15,6], &cards!(Five, Clubs; Three, Diamonds;)),
    ("cards!(Five, Clubs; Three, Clubs)", &[15,7], &cards!(Five, Clubs; Three, Clubs)),
    ("cards!(Five, Clubs; Four, Spades;)", &[15,8], &cards!(Five, Clubs; Four, Spades;)),
    ("cards!(Five, Clubs; Four, Hearts)", &[15,9], &cards!(Five, Clubs; Four, Hearts)),
    ("cards!(Five, Clubs; Four, Diamonds;)", &[15,10], &cards!(Five, Clubs; Four, Diamonds;)),
    ("cards!(Five, Clubs; Four, Clubs)", &[15,11], &cards!(Five, Clubs; Four, Clubs)),
    ("cards!(Five, Clubs; Five, Spades;)", &[15,12], &cards!(Five, Clubs; Five, Spades;)),
    ("cards!(Five, Clubs; Five, Hearts)", &[15,13], &cards!(Five, Clubs; Five, Hearts)),
    ("cards!(Five, Clubs; Five, Diamonds;)", &[15,14], &cards!(Five, Clubs; Five, Diamonds;)),
    ("cards!(Five, Clubs; Five, Clubs)", &[15,15], &cards!(Five, Clubs; Five, Clubs)),
    ("cards!(Five, Clubs; Six, Spades;)", &[15,16], &cards!(Five, Clubs; Six, Spades;)),
    ("cards!(Five, Clubs; Six, Hearts)", &[15,17], &cards!(Five, Clubs; Six, Hearts)),
    ("cards!(Five, Clubs; Six, Diamonds;)", &[15,18], &cards!(Five, Clubs; Six, Diamonds;)),
    ("cards!(Five, Clubs; Six, Clubs)", &[15,19], &cards!(Five, Clubs; Six, Clubs)),
    ("cards!(Five, Clubs; Seven, Spades;)", &[15,20], &cards!(Five, Clubs; Seven, Spades;)),
    ("cards!(Five, Clubs; Seven, Hearts)", &[15,21], &cards!(Five, Clubs; Seven, Hearts)),
    ("cards!(Five, Clubs; Seven, Diamonds;)", &[15,22], &cards!(Five, Clubs; Seven, Diamonds;)),
    ("cards!(Five, Clubs; Seven, Clubs)", &[15,23], &cards!(Five, Clubs; Seven, Clubs)),
    ("cards!(Five, Clubs; Eight, Spades;)", &[15,24], &cards!(Five, Clubs; Eight, Spades;)),
    ("cards!(Five, Clubs; Eight, Hearts)", &[15,25], &cards!(Five, Clubs; Eight, Hearts)),
    ("cards!(Five, Clubs; Eight, Diamonds;)", &[15,26], &cards!(Five, Clubs; Eight, Diamonds;)),
    ("cards!(Five, Clubs; Eight, Clubs)", &[15,27], &cards!(Five, Clubs; Eight, Clubs)),
    ("cards!(Five, Clubs; Nine, Spades;)", &[15,28], &cards!(Five, Clubs; Nine, Spades;)),
    ("cards!(Five, Clubs; Nine, Hearts)", &[15,29], &cards!(Five, Clubs; Nine, Hearts)),
    ("cards!(Five, Clubs; Nine, Diamonds;)", &[15,30], &cards!(Five, Clubs; Nine, Diamonds;)),
    ("cards!(Five, Clubs; Nine, Clubs)", &[15,31], &cards!(Five, Clubs; Nine, Clubs)),
    ("cards!(Five, Clubs; Ten, Spades;)", &[15,32], &cards!(Five, Clubs; Ten, Spades;)),
    ("cards!(Five, Clubs; Ten, Hearts)", &[15,33], &cards!(Five, Clubs; Ten, Hearts)),
    ("cards!(Five, Clubs; Ten, Diamonds;)", &[15,34], &cards!(Five, Clubs; Ten, Diamonds;)),
    ("cards!(Five, Clubs; Ten, Clubs)", &[15,35], &cards!(Five, Clubs; Ten, Clubs)),
    ("cards!(Five, Clubs; Jack, Spades;)", &[15,36], &cards!(Five, Clubs; Jack, Spades;)),
    ("cards!(Five, Clubs; Jack, Hearts)", &[15,37], &cards!(Five, Clubs; Jack, Hearts)),
    ("cards!(Five, Clubs; Jack, Diamonds;)", &[15,38], &cards!(Five, Clubs; Jack, Diamonds;)),
    ("cards!(Five, Clubs; Jack, Clubs)", &[15,39], &cards!(Five, Clubs; Jack, Clubs)),
    ("cards!(Five, Clubs; Queen, Spades;)", &[15,40], &cards!(Five, Clubs; Queen, Spades;)),
    ("cards!(Five, Clubs; Queen, Hearts)", &[15,41], &cards!(Five, Clubs; Queen, Hearts)),
    ("cards!(Five, Clubs; Queen, Diamonds;)", &[15,42], &cards!(Five, Clubs; Queen, Diamonds;)),
    ("cards!(Five, Clubs; Queen, Clubs)", &[15,43], &cards!(Five, Clubs; Queen, Clubs)),
    ("cards!(Five, Clubs; King, Spades;)", &[15,44], &cards!(Five, Clubs; King, Spades;)),
    ("cards!(Five, Clubs; King, Hearts)", &[15,45], &cards!(Five, Clubs; King, Hearts)),
    ("cards!(Five, Clubs; King, Diamonds;)", &[15,46], &cards!(Five, Clubs; King, Diamonds;)),
    ("cards!(Five, Clubs; King, Clubs)", &[15,47], &cards!(Five, Clubs; King, Clubs)),
    ("cards!(Five, Clubs; Ace, Spades;)", &[15,48], &cards!(Five, Clubs; Ace, Spades;)),
    ("cards!(Five, Clubs; Ace, Hearts)", &[15,49], &cards!(Five, Clubs; Ace, Hearts)),
    ("cards!(Five, Clubs; Ace, Diamonds;)", &[15,50], &cards!(Five, Clubs; Ace, Diamonds;)),
    ("cards!(Five, Clubs; Ace, Clubs)", &[15,51], &cards!(Five, Clubs; Ace, Clubs)),
    ("cards!(Six, Spades; Two, Spades)", &[16,0], &cards!(Six, Spades; Two, Spades)),
    ("cards!(Six, Spades; Two, Hearts;)", &[16,1], &cards!(Six, Spades; Two, Hearts;)),
    ("cards!(Six, Spades; Two, Diamonds)", &[16,2], &cards!(Six, Spades; Two, Diamonds)),
    ("cards!(Six, Spades; Two, Clubs;)", &[16,3], &cards!(Six, Spades; Two, Clubs;)),
    ("cards!(Six, Spades; Three, Spades)", &[16,4], &cards!(Six, Spades; Three, Spades)),
    ("cards!(Six, Spades; Three, Hearts;)", &[16,5], &cards!(Six, Spades; Three, Hearts;)),
    ("cards!(Six, Spades; Three, Diamonds)", &[16,6], &cards!(Six, Spades; Three, Diamonds)),
    ("cards!(Six, Spades; Three, Clubs;)", &[16,7], &cards!(Six, Spades; Three, Clubs;)),
    ("cards!(Six, Spades; Four, Spades)", &[16,8], &cards!(Six, Spades; Four, Spades)),
    ("cards!(Six, Spades; Four, Hearts;)", &[16,9], &cards!(Six, Spades; Four, Hearts;)),
    ("cards!(Six, Spades; Four, Diamonds)", &[16,10], &cards!(Six, Spades; Four, Diamonds)),
    ("cards!(Six, Spades; Four, Clubs;)", &[16,11], &cards!(Six, Spades; Four, Clubs;)),
    ("cards!(Six, Spades; Five, Spades)", &[16,12], &cards!(Six, Spades; Five, Spades)),
    ("cards!(Six, Spades; Five, Hearts;)", &[16,13], &cards!(Six, Spades; Five, Hearts;)),
    ("cards!(Six, Spades; Five, Diamonds)", &[16,14], &cards!(Six, Spades; Five, Diamonds)),
    ("cards!(Six, Spades; Five, Clubs;)", &[16,15], &cards!(Six, Spades; Five, Clubs;)),
    ("cards!(Six, Spades; Six, Spades)", &[16,16], &cards!(Six, Spades; Six, Spades)),
    ("cards!(Six, Spades; Six, Hearts;)", &[16,17], &cards!(Six, Spades; Six, Hearts;)),
    ("cards!(Six, Spades; Six, Diamonds)", &[16,18], &cards!(Six, Spades; Six, Diamonds)),
    ("cards!(Six, Spades; Six, Clubs;)", &[16,19], &cards!(Six, Spades; Six, Clubs;)),
    ("cards!(Six, Spades; Seven, Spades)", &[16,20], &cards!(Six, Spades; Seven, Spades)),
    ("cards!(Six, Spades; Seven, Hearts;)", &[16,21], &cards!(Six, Spades; Seven, Hearts;)),
    ("cards!(Six, Spades; Seven, Diamonds)", &[16,22], &cards!(Six, Spades; Seven, Diamonds)),
    ("cards!(Six, Spades; Seven, Clubs;)", &[16,23], &cards!(Six, Spades; Seven, Clubs;)),
    ("cards!(Six, Spades; Eight, Spades)", &[16,24], &cards!(Six, Spades; Eight, Spades)),
    ("cards!(Six, Spades; Eight, Hearts;)", &[16,25], &cards!(Six, Spades; Eight, Hearts;)),
    ("cards!(Six, Spades; Eight, Diamonds)", &[16,26], &cards!(Six, Spades; Eight, Diamonds)),
    ("cards!(Six, Spades; Eight, Clubs;)", &[16,27], &cards!(Six, Spades; Eight, Clubs;)),
    ("cards!(Six, Spades; Nine, Spades)", &[16,28], &cards!(Six, Spades; Nine, Spades)),
    ("cards!(Six, Spades; Nine, Hearts;)", &[16,29], &cards!(Six, Spades; Nine, Hearts;)),
    ("cards!(Six, Spades; Nine, Diamonds)", &[16,30], &cards!(Six, Spades; Nine, Diamonds)),
    ("cards!(Six, Spades; Nine, Clubs;)", &[16,31], &cards!(Six, Spades; Nine, Clubs;)),
    ("cards!(Six, Spades; Ten, Spades)", &[16,32], &cards!(Six, Spades; Ten, Spades)),
    ("cards!(Six, Spades; Ten, Hearts;)", &[16,33], &cards!(Six, Spades; Ten, Hearts;)),
    ("cards!(Six, Spades; Ten, Diamonds)", &[16,34], &cards!(Six, Spades; Ten, Diamonds)),
    ("cards!(Six, Spades; Ten, Clubs;)", &[16,35], &cards!(Six, Spades; Ten, Clubs;)),
    ("cards!(Six, Spades; Jack, Spades)", &[16,36], &cards!(Six, Spades; Jack, Spades)),
    ("cards!(Six, Spades; Jack, Hearts;)", &[16,37], &cards!(Six, Spades; Jack, Hearts;)),
    ("cards!(Six, Spades; Jack, Diamonds)", &[16,38], &cards!(Six, Spades; Jack, Diamonds)),
    ("cards!(Six, Spades; Jack, Clubs;)", &[16,39], &cards!(Six, Spades; Jack, Clubs;)),
    ("cards!(Six, Spades; Queen, Spades)", &[16,40], &cards!(Six, Spades; Queen, Spades)),
    ("cards!(Six, Spades; Queen, Hearts;)", &[16,41], &cards!(Six, Spades; Queen, Hearts;)),
    ("cards!(Six, Spades; Queen, Diamonds)", &[16,42], &cards!(Six, Spades; Queen, Diamonds)),
    ("cards!(Six, Spades; Queen, Clubs;)", &[16,43], &cards!(Six, Spades; Queen, Clubs;)),
    ("cards!(Six, Spades; King, Spades)", &[16,44], &cards!(Six, Spades; King, Spades)),
    ("cards!(Six, Spades; King, Hearts;)", &[16,45], &cards!(Six, Spades; King, Hearts;)),
    ("cards!(Six, Spades; King, Diamonds)", &[16,46], &cards!(Six, Spades; King, Diamonds)),
    ("cards!(Six, Spades; King, Clubs;)", &[16,47], &cards!(Six, Spades; King, Clubs;)),
    ("cards!(Six, Spades; Ace, Spades)", &[16,48], &cards!(Six, Spades; Ace, Spades)),
    ("cards!(Six, Spades; Ace, Hearts;)", &[16,49], &cards!(Six, Spades; Ace, Hearts;)),
    ("cards!(Six, Spades; Ace, Diamonds)", &[16,50], &cards!(Six, Spades; Ace, Diamonds)),
    ("cards!(Six, Spades; Ace, Clubs;)", &[16,51], &cards!(Six, Spades; Ace, Clubs;)),
    ("cards!(Six, Hearts; Two, Spades;)", &[17,0], &cards!(Six, Hearts; Two, Spades;)),
    ("cards!(Six, Hearts; Two, Hearts)", &[17,1], &cards!(Six, Hearts; Two, Hearts)),
    ("cards!(Six, Hearts; Two, Diamonds;)", &[17,2], &cards!(Six, Hearts; Two, Diamonds;)),
    ("cards!(Six, Hearts; Two, Clubs)", &[17,3], &cards!(Six, Hearts; Two, Clubs)),
    ("cards!(Six, Hearts; Three, Spades;)", &[17,4], &cards!(Six, Hearts; Three, Spades;)),
    ("cards!(Six, Hearts; Three, Hearts)", &[17,5], &cards!(Six, Hearts; Three, Hearts)),
    ("cards!(Six, Hearts; Three, Diamonds;)", &[17,6], &cards!(Six, Hearts; Three, Diamonds;)),
    ("cards!(Six, Hearts; Three, Clubs)", &[17,7], &cards!(Six, Hearts; Three, Clubs)),
    ("cards!(Six, Hearts; Four, Spades;)", &[17,8], &cards!(Six, Hearts; Four, Spades;)),
    ("cards!(Six, Hearts; Four, Hearts)", &[17,9], &cards!(Six, Hearts; Four, Hearts)),
    ("cards!(Six, Hearts; Four, Diamonds;)", &[17,10], &cards!(Six, Hearts; Four, Diamonds;)),
    ("cards!(Six, Hearts; Four, Clubs)", &[17,11], &cards!(Six, Hearts; Four, Clubs)),
    ("cards!(Six, Hearts; Five, Spades;)", &[17,12], &cards!(Six, Hearts; Five, Spades;)),
    ("cards!(Six, Hearts; Five, Hearts)", &[17,13], &cards!(Six, Hearts; Five, Hearts)),
    ("cards!(Six, Hearts; Five, Diamonds;)", &[17,14], &cards!(Six, Hearts; Five, Diamonds;)),
    ("cards!(Six, Hearts; Five, Clubs)", &[17,15], &cards!(Six, Hearts; Five, Clubs)),
    ("cards!(Six, Hearts; Six, Spades;)", &[17,16], &cards!(Six, Hearts; Six, Spades;)),
    ("cards!(Six, Hearts; Six, Hearts)", &[17,17], &cards!(Six, Hearts; Six, Hearts)),
    ("cards!(Six, Hearts; Six, Diamonds;)", &[17,18], &cards!(Six, Hearts; Six, Diamonds;)),
    ("cards!(Six, Hearts; Six, Clubs)", &[17,19], &cards!(Six, Hearts; Six, Clubs)),
    ("cards!(Six, Hearts; Seven, Spades;)", &[17,20], &cards!(Six, Hearts; Seven, Spades;)),
    ("cards!(Six, Hearts; Seven, Hearts)", &[17,21], &cards!(Six, Hearts; Seven, Hearts)),
    ("cards!(Six, Hearts; Seven, Diamonds;)", &[17,22], &cards!(Six, Hearts; Seven, Diamonds;)),
    ("cards!(Six, Hearts; Seven, Clubs)", &[17,23], &cards!(Six, Hearts; Seven, Clubs)),
    ("cards!(Six, Hearts; Eight, Spades;)", &[17,24], &cards!(Six, Hearts; Eight, Spades;)),
    ("cards!(Six, Hearts; Eight, Hearts)", &[17,25], &cards!(Six, Hearts; Eight, Hearts)),
    ("cards!(Six, Hearts; Eight, Diamonds;)", &[17,26], &cards!(Six, Hearts; Eight, Diamonds;)),
    ("cards!(Six, Hearts; Eight, Clubs)", &[17,27], &cards!(Six, Hearts; Eight, Clubs)),
    ("cards!(Six, Hearts; Nine, Spades;)", &[17,28], &cards!(Six, Hearts; Nine, Spades;)),
    ("cards!(Six, Hearts; Nine, Hearts)", &[17,29], &cards!(Six, Hearts; Nine, Hearts)),
    ("cards!(Six, Hearts; Nine, Diamonds;)", &[17,30], &cards!(Six, Hearts; Nine, Diamonds;)),
    ("cards!(Six, Hearts; Nine, Clubs)", &[17,31], &cards!(Six, Hearts; Nine, Clubs)),
    ("cards!(Six, Hearts; Ten, Spades;)", &[17,32], &cards!(Six, Hearts; Ten, Spades;)),
    ("cards!(Six, Hearts; Ten, Hearts)", &[17,33], &cards!(Six, Hearts; Ten, Hearts)),
    ("cards!(Six, Hearts; Ten, Diamonds;)", &[17,34], &cards!(Six, Hearts; Ten, Diamonds;)),
    ("cards!(Six, Hearts; Ten, Clubs)", &[17,35], &cards!(Six, Hearts; Ten, Clubs)),
    ("cards!(Six, Hearts; Jack, Spades;)", &[17,36], &cards!(Six, Hearts; Jack, Spades;)),
    ("cards!(Six, Hearts; Jack, Hearts)", &[17,37], &cards!(Six, Hearts; Jack, Hearts)),
    ("cards!(Six, Hearts; Jack, Diamonds;)", &[17,38], &cards!(Six, Hearts; Jack, Diamonds;)),
    ("cards!(Six, Hearts; Jack, Clubs)", &[17,39], &cards!(Six, Hearts; Jack, Clubs)),
    ("cards!(Six, Hearts; Queen, Spades;)", &[17,40], &cards!(Six, Hearts; Queen, Spades;)),
    ("cards!(Six, Hearts; Queen, Hearts)", &[17,41], &cards!(Six, Hearts; Queen, Hearts)),
    ("cards!(Six, Hearts; Queen, Diamonds;)", &[17,42], &cards!(Six, Hearts; Queen, Diamonds;)),
    ("cards!(Six, Hearts; Queen, Clubs)", &[17,43], &cards!(Six, Hearts; Queen, Clubs)),
    ("cards!(Six, Hearts; King, Spades;)", &[17,44], &cards!(Six, Hearts; King, Spades;)),
    ("cards!(Six, Hearts; King, Hearts)", &[17,45], &cards!(Six, Hearts; King, Hearts)),
    ("cards!(Six, Hearts; King, Diamonds;)", &[17,46], &cards!(Six, Hearts; King, Diamonds;)),
    ("cards!(Six, Hearts; King, Clubs)", &[17,47], &cards!(Six, Hearts; King, Clubs)),
    ("cards!(Six, Hearts; Ace, Spades;)", &[17,48], &cards!(Six, Hearts; Ace, Spades;)),
    ("cards!(Six, Hearts; Ace, Hearts)", &[17,49], &cards!(Six, Hearts; Ace, Hearts)),
    ("cards!(Six, Hearts; Ace, Diamonds;)", &[17,50], &cards!(Six, Hearts; Ace, Diamonds;)),
    ("cards!(Six, Hearts; Ace, Clubs)", &[17,51], &cards!(Six, Hearts; Ace, Clubs)),
    ("cards!(Six, Diamonds; Two, Spades)", &[18,0], &cards!(Six, Diamonds; Two, Spades)),
    ("cards!(Six, Diamonds; Two, Hearts;)", &[18,1], &cards!(Six, Diamonds; Two, Hearts;)),
    ("cards!(Six, Diamonds; Two, Diamonds)", &[18,2], &cards!(Six, Diamonds; Two, Diamonds)),
    ("cards!(Six, Diamonds; Two, Clubs;)", &[18,3], &cards!(Six, Diamonds; Two, Clubs;)),
    ("cards!(Six, Diamonds; Three, Spades)", &[18,4], &cards!(Six, Diamonds; Three, Spades)),
    ("cards!(Six, Diamonds; Three, Hearts;)", &[18,5], &cards!(Six, Diamonds; Three, Hearts;)),
    ("cards!(Six, Diamonds; Three, Diamonds)", &[18,6], &cards!(Six, Diamonds; Three, Diamonds)),
    ("cards!(Six, Diamonds; Three, Clubs;)", &[18,7], &cards!(Six, Diamonds; Three, Clubs;)),
    ("cards!(Six, Diamonds; Four, Spades)", &[18,8], &cards!(Six, Diamonds; Four, Spades)),
    ("cards!(Six, Diamonds; Four, Hearts;)", &[18,9], &cards!(Six, Diamonds; Four, Hearts;)),
    ("cards!(Six, Diamonds; Four, Diamonds)", &[18,10], &cards!(Six, Diamonds; Four, Diamonds)),
    ("cards!(Six, Diamonds; Four, Clubs;)", &[18,11], &cards!(Six, Diamonds; Four, Clubs;)),
    ("cards!(Six, Diamonds; Five, Spades)", &[18,12], &cards!(Six, Diamonds; Five, Spades)),
    ("cards!(Six, Diamonds; Five, Hearts;)", &[18,13], &cards!(Six, Diamonds; Five, Hearts;)),
    ("cards!(Six, Diamonds; Five, Diamonds)", &[18,14], &cards!(Six, Diamonds; Five, Diamonds)),
    ("cards!(Six, Diamonds; Five, Clubs;)", &[18,15], &cards!(Six, Diamonds; Five, Clubs;)),
    ("cards!(Six, Diamonds; Six, Spades)", &[18,16], &cards!(Six, Diamonds; Six, Spades)),
    ("cards!(Six, Diamonds; Six, Hearts;)", &[18,17], &cards!(Six, Diamonds; Six, Hearts;)),
    ("cards!(Six, Diamonds; Six, Diamonds)", &[18,18], &cards!(Six, Diamonds; Six, Diamonds)),
    ("cards!(Six, Diamonds; Six, Clubs;)", &[18,19], &cards!(Six, Diamonds; Six, Clubs;)),
    ("cards!(Six, Diamonds; Seven, Spades)", &[18,20], &cards!(Six, Diamonds; Seven, Spades)),
    ("cards!(Six, Diamonds; Seven, Hearts;)", &[18,21], &cards!(Six, Diamonds; Seven, Hearts;)),
    ("cards!(Six, Diamonds; Seven, Diamonds)", &[18,22], &cards!(Six, Diamonds; Seven, Diamonds)),
    ("cards!(Six, Diamonds; Seven, Clubs;)", &[18,23], &cards!(Six, Diamonds; Seven, Clubs;)),
    ("cards!(Six, Diamonds; Eight, Spades)", &[18,24], &cards!(Six, Diamonds; Eight, Spades)),
    ("cards!(Six, Diamonds; Eight, Hearts;)", &[18,25], &cards!(Six, Diamonds; Eight, Hearts;)),
    ("cards!(Six, Diamonds; Eight, Diamonds)", &[18,26], &cards!(Six, Diamonds; Eight, Diamonds)),
    ("cards!(Six, Diamonds; Eight, Clubs;)", &[18,27], &cards!(Six, Diamonds; Eight, Clubs;)),
    ("cards!(Six, Diamonds; Nine, Spades)", &[18,28], &cards!(Six, Diamonds; Nine, Spades)),
    ("cards!(Six, Diamonds; Nine, Hearts;)", &[18,29], &cards!(Six, Diamonds; Nine, Hearts;)),
    ("cards!(Six, Diamonds; Nine, Diamonds)", &[18,30], &cards!(Six, Diamonds; Nine, Diamonds)),
    ("cards!(Six, Diamonds; Nine, Clubs;)", &[18,31], &cards!(Six, Diamonds; Nine, Clubs;)),
    ("cards!(Six, Diamonds; Ten, Spades)", &[18,32], &cards!(Six, Diamonds; Ten, Spades)),
    ("cards!(Six, Diamonds; Ten, Hearts;)", &[18,33], &cards!(Six, Diamonds; Ten, Hearts;)),
    ("cards!(Six, Diamonds; Ten, Diamonds)", &[18,34], &cards!(Six, Diamonds; Ten, Diamonds)),
    ("cards!(Six, Diamonds; Ten, Clubs;)", &[18,35], &cards!(Six, Diamonds; Ten, Clubs;)),
    ("cards!(Six, Diamonds; Jack, Spades)", &[18,36], &cards!(Six, Diamonds; Jack, Spades)),
    ("cards!(Six, Diamonds; Jack, Hearts;)", &[18,37], &cards!(Six, Diamonds; Jack, Hearts;)),
    ("cards!(Six, Diamonds; Jack, Diamonds)", &[18,38], &cards!(Six, Diamonds; Jack, Diamonds)),
    ("cards!(Six, Diamonds; Jack, Clubs;)", &[18,39], &cards!(Six, Diamonds; Jack, Clubs;)),
    ("cards!(Six, Diamonds; Queen, Spades)", &[18,40], &cards!(Six, Diamonds; Queen, Spades)),
    ("cards!(Six, Diamonds; Queen, Hearts;)", &[18,41], &cards!(Six, Diamonds; Queen, Hearts;)),
    ("cards!(Six, Diamonds; Queen, Diamonds)", &[18,42], &cards!(Six, Diamonds; Queen, Diamonds)),
    ("cards!(Six, Diamonds; Queen, Clubs;)", &[18,43], &cards!(Six, Diamonds; Queen, Clubs;)),
    ("cards!(Six, Diamonds; King, Spades)", &[18,44], &cards!(Six, Diamonds; King, Spades)),
    ("cards!(Six, Diamonds; King, Hearts;)", &[18,45], &cards!(Six, Diamonds; King, Hearts;)),
    ("cards!(Six, Diamonds; King, Diamonds)", &[18,46], &cards!(Six, Diamonds; King, Diamonds)),
    ("cards!(Six, Diamonds; King, Clubs;)", &[18,47], &cards!(Six, Diamonds; King, Clubs;)),
    ("cards!(Six, Diamonds; Ace, Spades)", &[18,48], &cards!(Six, Diamonds; Ace, Spades)),
    ("cards!(Six, Diamonds; Ace, Hearts;)", &[18,49], &cards!(Six, Diamonds; Ace, Hearts;)),
    ("cards!(Six, Diamonds; Ace, Diamonds)", &[18,50], &cards!(Six, Diamonds; Ace, Diamonds)),
    ("cards!(Six, Diamonds; Ace, Clubs;)", &[18,51], &cards!(Six, Diamonds; Ace, Clubs;)),
    ("cards!(Six, Clubs; Two, Spades;)", &[19,0], &cards!(Six, Clubs; Two, Spades;)),
    ("cards!(Six, Clubs; Two, Hearts)", &[19,1], &cards!(Six, Clubs; Two, Hearts)),
    ("cards!(Six, Clubs; Two, Diamonds;)", &[19,2], &cards!(Six, Clubs; Two, Diamonds;)),
    ("cards!(Six, Clubs; Two, Clubs)", &[19,3], &cards!(Six, Clubs; Two, Clubs)),
    ("cards!(Six, Clubs; Three, Spades;)", &[19,4], &cards!(Six, Clubs; Three, Spades;)),
    ("cards!(Six, Clubs; Three, Hearts)", &[19,5], &cards!(Six, Clubs; Three, Hearts)),
    ("cards!(Six, Clubs; Three, Diamonds;)", &[19,6], &cards!(Six, Clubs; Three, Diamonds;)),
    ("cards!(Six, Clubs; Three, Clubs)", &[19,7], &cards!(Six, Clubs; Three, Clubs)),
    ("cards!(Six, Clubs; Four, Spades;)", &[19,8], &cards!(Six, Clubs; Four, Spades;)),
    ("cards!(Six, Clubs; Four, Hearts)", &[19,9], &cards!(Six, Clubs; Four, Hearts)),
    ("cards!(Six, Clubs; Four, Diamonds;)", &[19,10], &cards!(Six, Clubs; Four, Diamonds;)),
    ("cards!(Six, Clubs; Four, Clubs)", &[19,11], &cards!(Six, Clubs; Four, Clubs)),
    ("cards!(Six, Clubs; Five, Spades;)", &[19,12], &cards!(Six, Clubs; Five, Spades;)),
    ("cards!(Six, Clubs; Five, Hearts)", &[19,13], &cards!(Six, Clubs; Five, Hearts)),
    ("cards!(Six, Clubs; Five, Diamonds;)", &[19,14], &cards!(Six, Clubs; Five, Diamonds;)),
    ("cards!(Six, Clubs; Five, Clubs)", &[19,15], &cards!(Six, Clubs; Five, Clubs)),
    ("cards!(Six, Clubs; Six, Spades;)", &[19,16], &cards!(Six, Clubs; Six, Spades;)),
    ("cards!(Six, Clubs; Six, Hearts)", &[19,17], &cards!(Six, Clubs; Six, Hearts)),
    ("cards!(Six, Clubs; Six, Diamonds;)", &[19,18], &cards!(Six, Clubs; Six, Diamonds;)),
    ("cards!(Six, Clubs; Six, Clubs)", &[19,19], &cards!(Six, Clubs; Six, Clubs)),
    ("cards!(Six, Clubs; Seven, Spades;)", &[19,20], &cards!(Six, Clubs; Seven, Spades;)),
    ("cards!(Six, Clubs; Seven, Hearts)", &[19,21], &cards!(Six, Clubs; Seven, Hearts)),
    ("cards!(Six, Clubs; Seven, Diamonds;)", &[19,22], &cards!(Six, Clubs; Seven, Diamonds;)),
    ("cards!(Six, Clubs; Seven, Clubs)", &[19,23], &cards!(Six, Clubs; Seven, Clubs)),
    ("cards!(Six, Clubs; Eight, Spades;)", &[19,24], &cards!(Six, Clubs; Eight, Spades;)),
    ("cards!(Six, Clubs; Eight, Hearts)", &[19,25], &cards!(Six, Clubs; Eight, Hearts)),
    ("cards!(Six, Clubs; Eight, Diamonds;)", &[19,26], &cards!(Six, Clubs; Eight, Diamonds;)),
    ("cards!(Six, Clubs; Eight, Clubs)", &[19,27], &cards!(Six, Clubs; Eight, Clubs)),
    ("cards!(Six, Clubs; Nine, Spades;)", &[19,28], &cards!(Six, Clubs; Nine, Spades;)),
    ("cards!(Six, Clubs; Nine, Hearts)", &[19,29], &cards!(Six, Clubs; Nine, Hearts)),
    ("cards!(Six, Clubs; Nine, Diamonds;)", &[19,30], &cards!(Six, Clubs; Nine, Diamonds;)),
    ("cards!(Six, Clubs; Nine, Clubs)", &[19,31], &cards!(Six, Clubs; Nine, Clubs)),
    ("cards!(Six, Clubs; Ten, Spades;)", &[19,32], &cards!(Six, Clubs; Ten, Spades;)),
    ("cards!(Six, Clubs; Ten, Hearts)", &[19,33], &cards!(Six, Clubs; Ten, Hearts)),
    ("cards!(Six, Clubs; Ten, Diamonds;)", &[19,34], &cards!(Six, Clubs; Ten, Diamonds;)),
    ("cards!(Six, Clubs; Ten, Clubs)", &[19,35], &cards!(Six, Clubs; Ten, Clubs)),
    ("cards!(Six, Clubs; Jack, Spades;)", &[19,36], &cards!(Six, Clubs; Jack, Spades;)),
    ("cards!(Six, Clubs; Jack, Hearts)", &[19,37], &cards!(Six, Clubs; Jack, Hearts)),
    ("cards!(Six, Clubs; Jack, Diamonds;)", &[19,38], &cards!(Six, Clubs; Jack, Diamonds;)),
    ("cards!(Six, Clubs; Jack, Clubs)", &[19,39], &cards!(Six, Clubs; Jack, Clubs)),
    ("cards!(Six, Clubs; Queen, Spades;)", &[19,40], &cards!(Six, Clubs; Queen, Spades;)),
    ("cards!(Six, Clubs; Queen, Hearts)", &[19,41], &cards!(Six, Clubs; Queen, Hearts)),
    ("cards!(Six, Clubs; Queen, Diamonds;)", &[19,42], &cards!(Six, Clubs; Queen, Diamonds;)),
    ("cards!(Six, Clubs; Queen, Clubs)", &[19,43], &cards!(Six, Clubs; Queen, Clubs)),
    ("cards!(Six, Clubs; King, Spades;)", &[19,44], &cards!(Six, Clubs; King, Spades;)),
    ("cards!(Six, Clubs; King, Hearts)", &[19,45], &cards!(Six, Clubs; King, Hearts)),
    ("cards!(Six, Clubs; King, Diamonds;)", &[19,46], &cards!(Six, Clubs; King, Diamonds;)),
    ("cards!(Six, Clubs; King, Clubs)", &[19,47], &cards!(Six, Clubs; King, Clubs)),
    ("cards!(Six, Clubs; Ace, Spades;)", &[19,48], &cards!(Six, Clubs; Ace, Spades;)),
    ("cards!(Six, Clubs; Ace, Hearts)", &[19,49], &cards!(Six, Clubs; Ace, Hearts)),
    ("cards!(Six, Clubs; Ace, Diamonds;)", &[19,50], &cards!(Six, Clubs; Ace, Diamonds;)),
    ("cards!(Six, Clubs; Ace, Clubs)", &[19,51], &cards!(Six, Clubs; Ace, Clubs)),
    ("cards!(Seven, Spades; Two, Spades)", &[20,0], &cards!(Seven, Spades; Two, Spades)),
    ("cards!(Seven, Spades; Two, Hearts;)", &[20,1], &cards!(Seven, Spades; Two, Hearts;)),
    ("cards!(Seven, Spades; Two, Diamonds)", &[20,2], &cards!(Seven, Spades; Two, Diamonds)),
    ("cards!(Seven, Spades; Two, Clubs;)", &[20,3], &cards!(Seven, Spades; Two, Clubs;)),
    ("cards!(Seven, Spades; Three, Spades)", &[20,4], &cards!(Seven, Spades; Three, Spades)),
    ("cards!(Seven, Spades; Three, Hearts;)", &[20,5], &cards!(Seven, Spades; Three, Hearts;)),
    ("cards!(Seven, Spades; Three, Diamonds)", &[20,6], &cards!(Seven, Spades; Three, Diamonds)),
    ("cards!(Seven, Spades; Three, Clubs;)", &[20,7], &cards!(Seven, Spades; Three, Clubs;)),
    ("cards!(Seven, Spades; Four, Spades)", &[20,8], &cards!(Seven, Spades; Four, Spades)),
    ("cards!(Seven, Spades; Four, Hearts;)", &[20,9], &cards!(Seven, Spades; Four, Hearts;)),
    ("cards!(Seven, Spades; Four, Diamonds)", &[20,10], &cards!(Seven, Spades; Four, Diamonds)),
    ("cards!(Seven, Spades; Four, Clubs;)", &[20,11], &cards!(Seven, Spades; Four, Clubs;)),
    ("cards!(Seven, Spades; Five, Spades)", &[20,12], &cards!(Seven, Spades; Five, Spades)),
    ("cards!(Seven, Spades; Five, Hearts;)", &[20,13], &cards!(Seven, Spades; Five, Hearts;)),
    ("cards!(Seven, Spades; Five, Diamonds)", &[20,14], &cards!(Seven, Spades; Five, Diamonds)),
    ("cards!(Seven, Spades; Five, Clubs;)", &[20,15], &cards!(Seven, Spades; Five, Clubs;)),
    ("cards!(Seven, Spades; Six, Spades)", &[20,16], &cards!(Seven, Spades; Six, Spades)),
    ("cards!(Seven, Spades; Six, Hearts;)", &[20,17], &cards!(Seven, Spades; Six, Hearts;)),
    ("cards!(Seven, Spades; Six, Diamonds)", &[20,18], &cards!(Seven, Spades; Six, Diamonds)),
    ("cards!(Seven, Spades; Six, Clubs;)", &[20,19], &cards!(Seven, Spades; Six, Clubs;)),
    ("cards!(Seven, Spades; Seven, Spades)", &[20,20], &cards!(Seven, Spades; Seven, Spades)),
    ("cards!(Seven, Spades; Seven, Hearts;)", &[20,21], &cards!(Seven, Spades; Seven, Hearts;)),
    ("cards!(Seven, Spades; Seven, Diamonds)", &[20,22], &cards!(Seven, Spades; Seven, Diamonds)),
    ("cards!(Seven, Spades; Seven, Clubs;)", &[20,23], &cards!(Seven, Spades; Seven, Clubs;)),
    ("cards!(Seven, Spades; Eight, Spades)", &[20,24], &cards!(Seven, Spades; Eight, Spades)),
    ("cards!(Seven, Spades; Eight, Hearts;)", &[20,25], &cards!(Seven, Spades; Eight, Hearts;)),
    ("cards!(Seven, Spades; Eight, Diamonds)", &[20,26], &cards!(Seven, Spades; Eight, Diamonds)),
    ("cards!(Seven, Spades; Eight, Clubs;)", &[20,27], &cards!(Seven, Spades; Eight, Clubs;)),
    ("cards!(Seven, Spades; Nine, Spades)", &[20,28], &cards!(Seven, Spades; Nine, Spades)),
    ("cards!(Seven, Spades; Nine, Hearts;)", &[20,29], &cards!(Seven, Spades; Nine, Hearts;)),
    ("cards!(Seven, Spades; Nine, Diamonds)", &[20,30], &cards!(Seven, Spades; Nine, Diamonds)),
    ("cards!(Seven, Spades; Nine, Clubs;)", &[20,31], &cards!(Seven, Spades; Nine, Clubs;)),
    ("cards!(Seven, Spades; Ten, Spades)", &[20,32], &cards!(Seven, Spades; Ten, Spades)),
    ("cards!(Seven, Spades; Ten, Hearts;)", &[20,33], &cards!(Seven, Spades; Ten, Hearts;)),
    ("cards!(Seven, Spades; Ten, Diamonds)", &[20,34], &cards!(Seven, Spades; Ten, Diamonds)),
    ("cards!(Seven, Spades; Ten, Clubs;)", &[20,35], &cards!(Seven, Spades; Ten, Clubs;)),
    ("cards!(Seven, Spades; Jack, Spades)", &[20,36], &cards!(Seven, Spades; Jack, Spades)),
    ("cards!(Seven, Spades; Jack, Hearts;)", &[20,37], &cards!(Seven, Spades; Jack, Hearts;)),
    ("cards!(Seven, Spades; Jack, Diamonds)", &[20,38], &cards!(Seven, Spades; Jack, Diamonds)),
    ("cards!(Seven, Spades; Jack, Clubs;)", &[20,39], &cards!(Seven, Spades; Jack, Clubs;)),
    ("cards!(Seven, Spades; Queen, Spades)", &[20,40], &cards!(Seven, Spades; Queen, Spades)),
    ("cards!(Seven, Spades; Queen, Hearts;)", &[20,41], &cards!(Seven, Spades; Queen, Hearts;)),
    ("cards!(Seven, Spades; Queen, Diamonds)", &[20,42], &cards!(Seven, Spades; Queen, Diamonds)),
    ("cards!(Seven, Spades; Queen, Clubs;)", &[20,43], &cards!(Seven, Spades; Queen, Clubs;)),
    ("cards!(Seven, Spades; King, Spades)", &[20,44], &cards!(Seven, Spades; King, Spades)),
    ("cards!(Seven, Spades; King, Hearts;)", &[20,45], &cards!(Seven, Spades; King, Hearts;)),
    ("cards!(Seven, Spades; King, Diamonds)", &[20,46], &cards!(Seven, Spades; King, Diamonds)),
    ("cards!(Seven, Spades; King, Clubs;)", &[20,47], &cards!(Seven, Spades; King, Clubs;)),
    ("cards!(Seven, Spades; Ace, Spades)", &[20,48], &cards!(Seven, Spades; Ace, Spades)),
    ("cards!(Seven, Spades; Ace, Hearts;)", &[20,49], &cards!(Seven, Spades; Ace, Hearts;)),
    ("cards!(Seven, Spades; Ace, Diamonds)", &[20,50], &cards!(Seven, Spades; Ace, Diamonds)),
    ("cards!(Seven, Spades; Ace, Clubs;)", &[20,51], &cards!(Seven, Spades; Ace, Clubs;)),
    ("cards!(Seven, Hearts; Two, Spades;)", &[21,0], &cards!(Seven, Hearts; Two, Spades;)),
    ("cards!(Seven, Hearts; Two, Hearts)", &[21,1], &cards!(Seven, Hearts; Two, Hearts)),
    ("cards!(Seven, Hearts; Two, Diamonds;)", &[21,2], &cards!(Seven, Hearts; Two, Diamonds;)),
    ("cards!(Seven, Hearts; Two, Clubs)", &[21,3], &cards!(Seven, Hearts; Two, Clubs)),
    ("cards!(Seven, Hearts; Three, Spades;)", &[21,4], &cards!(Seven, Hearts; Three, Spades;)),
    ("cards!(Seven, Hearts; Three, Hearts)", &[21,5], &cards!(Seven, Hearts; Three, Hearts)),
    ("cards!(Seven, Hearts; Three, Diamonds;)", &[21,6], &cards!(Seven, Hearts; Three, Diamonds;)),
    ("cards!(Seven, Hearts; Three, Clubs)", &[21,7], &cards!(Seven, Hearts; Three, Clubs)),
    ("cards!(Seven, Hearts; Four, Spades;)", &[21,8], &cards!(Seven, Hearts; Four, Spades;)),
    ("cards!(Seven, Hearts; Four, Hearts)", &[21,9], &cards!(Seven, Hearts; Four, Hearts)),
    ("cards!(Seven, Hearts; Four, Diamonds;)", &[21,10], &cards!(Seven, Hearts; Four, Diamonds;)),
    ("cards!(Seven, Hearts; Four, Clubs)", &[21,11], &cards!(Seven, Hearts; Four, Clubs)),
    ("cards!(Seven, Hearts; Five, Spades;)", &[21,12], &cards!(Seven, Hearts; Five, Spades;)),
    ("cards!(Seven, Hearts; Five, Hearts)", &[21,13], &cards!(Seven, Hearts; Five, Hearts)),
    ("cards!(Seven, Hearts; Five, Diamonds;)", &[21,14], &cards!(Seven, Hearts; Five, Diamonds;)),
    ("cards!(Seven, Hearts; Five, Clubs)", &[21,15], &cards!(Seven, Hearts; Five, Clubs)),
    ("cards!(Seven, Hearts; Six, Spades;)", &[21,16], &cards!(Seven, Hearts; Six, Spades;)),
    ("cards!(Seven, Hearts; Six, Hearts)", &[21,17], &cards!(Seven, Hearts; Six, Hearts)),
    ("cards!(Seven, Hearts; Six, Diamonds;)", &[21,18], &cards!(Seven, Hearts; Six, Diamonds;)),
    ("cards!(Seven, Hearts; Six, Clubs)", &[21,19], &cards!(Seven, Hearts; Six, Clubs)),
    ("cards!(Seven, Hearts; Seven, Spades;)", &[21,20], &cards!(Seven, Hearts; Seven, Spades;)),
    ("cards!(Seven, Hearts; Seven, Hearts)", &[21,21], &cards!(Seven, Hearts; Seven, Hearts)),
    ("cards!(Seven, Hearts; Seven, Diamonds;)", &[21,22], &cards!(Seven, Hearts; Seven, Diamonds;)),
    ("cards!(Seven, Hearts; Seven, Clubs)", &[21,23], &cards!(Seven, Hearts; Seven, Clubs)),
    ("cards!(Seven, Hearts; Eight, Spades;)", &[21,24], &cards!(Seven, Hearts; Eight, Spades;)),
    ("cards!(Seven, Hearts; Eight, Hearts)", &[21,25], &cards!(Seven, Hearts; Eight, Hearts)),
    ("cards!(Seven, Hearts; Eight, Diamonds;)", &[21,26], &cards!(Seven, Hearts; Eight, Diamonds;)),
    ("cards!(Seven, Hearts; Eight, Clubs)", &[21,27], &cards!(Seven, Hearts; Eight, Clubs)),
    ("cards!(Seven, Hearts; Nine, Spades;)", &[21,28], &cards!(Seven, Hearts; Nine, Spades;)),
    ("cards!(Seven, Hearts; Nine, Hearts)", &[21,29], &cards!(Seven, Hearts; Nine, Hearts)),
    ("cards!(Seven, Hearts; Nine, Diamonds;)", &[21,30], &cards!(Seven, Hearts; Nine, Diamonds;)),
    ("cards!(Seven, Hearts; Nine, Clubs)", &[21,31], &cards!(Seven, Hearts; Nine, Clubs)),
    ("cards!(Seven, Hearts; Ten, Spades;)", &[21,32], &cards!(Seven, Hearts; Ten, Spades;)),
    ("cards!(Seven, Hearts; Ten, Hearts)", &[21,33], &cards!(Seven, Hearts; Ten, Hearts)),
    ("cards!(Seven, Hearts; Ten, Diamonds;)", &[21,34], &cards!(Seven, Hearts; Ten, Diamonds;)),
    ("cards!(Seven, Hearts; Ten, Clubs)", &[21,35], &cards!(Seven, Hearts; Ten, Clubs)),
    ("cards!(Seven, Hearts; Jack, Spades;)", &[21,36], &cards!(Seven, Hearts; Jack, Spades;)),
    ("cards!(Seven, Hearts; Jack, Hearts)", &[21,37], &cards!(Seven, Hearts; Jack, Hearts)),
    ("cards!(Seven, Hearts; Jack, Diamonds;)", &[21,38], &cards!(Seven, Hearts; Jack, Diamonds;)),
    ("cards!(Seven, Hearts; Jack, Clubs)", &[21,39], &cards!(Seven, Hearts; Jack, Clubs)),
    ("cards!(Seven, Hearts; Queen, Spades;)", &[21,40], &cards!(Seven, Hearts; Queen, Spades;)),
    ("cards!(Seven, Hearts; Queen, Hearts)", &[21,41], &cards!(Seven, Hearts; Queen, Hearts)),
    ("cards!(Seven, Hearts; Queen, Diamonds;)", &[21,42], &cards!(Seven, Hearts; Queen, Diamonds;)),
    ("cards!(Seven, Hearts; Queen, Clubs)", &[21,43], &cards!(Seven, Hearts; Queen, Clubs)),
    ("cards!(Seven, Hearts; King, Spades;)", &[21,44], &cards!(Seven, Hearts; King, Spades;)),
    ("cards!(Seven, Hearts; King, Hearts)", &[21,45], &cards!(Seven, Hearts; King, Hearts)),
    ("cards!(Seven, Hearts; King, Diamonds;)", &[21,46], &cards!(Seven, Hearts; King, Diamonds;)),
    ("cards!(Seven, Hearts; King, Clubs)", &[21,47], &cards!(Seven, Hearts; King, Clubs)),
    ("cards!(Seven, Hearts; Ace, Spades;)", &[21,48], &cards!(Seven, Hearts; Ace, Spades;)),
    ("cards!(Seven, Hearts; Ace, Hearts)", &[21,49], &cards!(Seven, Hearts; Ace, Hearts)),
    ("cards!(Seven, Hearts; Ace, Diamonds;)", &[21,50], &cards!(Seven, Hearts; Ace, Diamonds;)),
    ("cards!(Seven, Hearts; Ace, Clubs)", &[21,51], &cards!(Seven, Hearts; Ace, Clubs)),
    ("cards!(Seven, Diamonds; Two, Spades)", &[22,0], &cards!(Seven, Diamonds; Two, Spades)),
    ("cards!(Seven, Diamonds; Two, Hearts;)", &[22,1], &cards!(Seven, Diamonds; Two, Hearts;)),
    ("cards!(Seven, Diamonds; Two, Diamonds)", &[22,2], &cards!(Seven, Diamonds; Two, Diamonds)),
    ("cards!(Seven, Diamonds; Two, Clubs;)", &[22,3], &cards!(Seven, Diamonds; Two, Clubs;)),
    ("cards!(Seven, Diamonds; Three, Spades)", &[22,4], &cards!(Seven, Diamonds; Three, Spades)),
    ("cards!(Seven, Diamonds; Three, Hearts;)", &[22,5], &cards!(Seven, Diamonds; Three, Hearts;)),
    ("cards!(Seven, Diamonds; Three, Diamonds)", &[22,6], &cards!(Seven, Diamonds; Three, Diamonds)),
    ("cards!(Seven, Diamonds; Three, Clubs;)", &[22,7], &cards!(Seven, Diamonds; Three, Clubs;)),
    ("cards!(Seven, Diamonds; Four, Spades)", &[22,8], &cards!(Seven, Diamonds; Four, Spades)),
    ("cards!(Seven, Diamonds; Four, Hearts;)", &[22,9], &cards!(Seven, Diamonds; Four, Hearts;)),
    ("cards!(Seven, Diamonds; Four, Diamonds)", &[22,10], &cards!(Seven, Diamonds; Four, Diamonds)),
    ("cards!(Seven, Diamonds; Four, Clubs;)", &[22,11], &cards!(Seven, Diamonds; Four, Clubs;)),
    ("cards!(Seven, Diamonds; Five, Spades)", &[22,12], &cards!(Seven, Diamonds; Five, Spades)),
    ("cards!(Seven, Diamonds; Five, Hearts;)", &[22,13], &cards!(Seven, Diamonds; Five, Hearts;)),
    ("cards!(Seven, Diamonds; Five, Diamonds)", &[22,14], &cards!(Seven, Diamonds; Five, Diamonds)),
    ("cards!(Seven, Diamonds; Five, Clubs;)", &[22,15], &cards!(Seven, Diamonds; Five, Clubs;)),
    ("cards!(Seven, Diamonds; Six, Spades)", &[22,16], &cards!(Seven, Diamonds; Six, Spades)),
    ("cards!(Seven, Diamonds; Six, Hearts;)", &[22,17], &cards!(Seven, Diamonds; Six, Hearts;)),
    ("cards!(Seven, Diamonds; Six, Diamonds)", &[22,18], &cards!(Seven, Diamonds; Six, Diamonds)),
    ("cards!(Seven, Diamonds; Six, Clubs;)", &[22,19], &cards!(Seven, Diamonds; Six, Clubs;)),
    ("cards!(Seven, Diamonds; Seven, Spades)", &[22,20], &cards!(Seven, Diamonds; Seven, Spades)),
    ("cards!(Seven, Diamonds; Seven, Hearts;)", &[22,21], &cards!(Seven, Diamonds; Seven, Hearts;)),
    ("cards!(Seven, Diamonds; Seven, Diamonds)", &[22,22], &cards!(Seven, Diamonds; Seven, Diamonds)),
    ("cards!(Seven, Diamonds; Seven, Clubs;)", &[22,23], &cards!(Seven, Diamonds; Seven, Clubs;)),
    ("cards!(Seven, Diamonds; Eight, Spades)", &[22,24], &cards!(Seven, Diamonds; Eight, Spades)),
    ("cards!(Seven, Diamonds; Eight, Hearts;)", &[22,25], &cards!(Seven, Diamonds; Eight, Hearts;)),
    ("cards!(Seven, Diamonds; Eight, Diamonds)", &[22,26], &cards!(Seven, Diamonds; Eight, Diamonds)),
    ("cards!(Seven, Diamonds; Eight, Clubs;)", &[22,27], &cards!(Seven, Diamonds; Eight, Clubs;)),
    ("cards!(Seven, Diamonds; Nine, Spades)", &[22,28], &cards!(Seven, Diamonds; Nine, Spades)),
    ("cards!(Seven, Diamonds; Nine, Hearts;)", &[22,29], &cards!(Seven, Diamonds; Nine, Hearts;)),
    ("cards!(Seven, Diamonds; Nine, Diamonds)", &[22,30], &cards!(Seven, Diamonds; Nine, Diamonds)),
    ("cards!(Seven, Diamonds; Nine, Clubs;)", &[22,31], &cards!(Seven, Diamonds; Nine, Clubs;)),
    ("cards!(Seven, Diamonds; Ten, Spades)", &[22,32], &cards!(Seven, Diamonds; Ten, Spades)),
    ("cards!(Seven, Diamonds; Ten, Hearts;)", &[22,33], &cards!(Seven, Diamonds; Ten, Hearts;)),
    ("cards!(Seven, Diamonds; Ten, Diamonds)", &[22,34], &cards!(Seven, Diamonds; Ten, Diamonds)),
    ("cards!(Seven, Diamonds; Ten, Clubs;)", &[22,35], &cards!(Seven, Diamonds; Ten, Clubs;)),
    ("cards!(Seven, Diamonds; Jack, Spades)", &[22,36], &cards!(Seven, Diamonds; Jack, Spades)),
    ("cards!(Seven, Diamonds; Jack, Hearts;)", &[22,37], &cards!(Seven, Diamonds; Jack, Hearts;)),
    ("cards!(Seven, Diamonds; Jack, Diamonds)", &[22,38], &cards!(Seven, Diamonds; Jack, Diamonds)),
    ("cards!(Seven, Diamonds; Jack, Clubs;)", &[22,39], &cards!(Seven, Diamonds; Jack, Clubs;)),
    ("cards!(Seven, Diamonds; Queen, Spades)", &[22,40], &cards!(Seven, Diamonds; Queen, Spades)),
    ("cards!(Seven, Diamonds; Queen, Hearts;)", &[22,41], &cards!(Seven, Diamonds; Queen, Hearts;)),
    ("cards!(Seven, Diamonds; Queen, Diamonds)", &[22,42], &cards!(Seven, Diamonds; Queen, Diamonds)),
    ("cards!(Seven, Diamonds; Queen, Clubs;)", &[22,43], &cards!(Seven, Diamonds; Queen, Clubs;)),
    ("cards!(Seven, Diamonds; King, Spades)", &[22,44], &cards!(Seven, Diamonds; King, Spades)),
    ("cards!(Seven, Diamonds; King, Hearts;)", &[22,45], &cards!(Seven, Diamonds; King, Hearts;)),
    ("cards!(Seven, Diamonds; King, Diamonds)", &[22,46], &cards!(Seven, Diamonds; King, Diamonds)),
    ("cards!(Seven, Diamonds; King, Clubs;)", &[22,47], &cards!(Seven, Diamonds; King, Clubs;)),
    ("cards!(Seven, Diamonds; Ace, Spades)", &[22,48], &cards!(Seven, Diamonds; Ace, Spades)),
    ("cards!(Seven, Diamonds; Ace, Hearts;)", &[22,49], &cards!(Seven, Diamonds; Ace, Hearts;)),
    ("cards!(Seven, Diamonds; Ace, Diamonds)", &[22,50], &cards!(Seven, Diamonds; Ace, Diamonds)),
    ("cards!(Seven, Diamonds; Ace, Clubs;)", &[22,51], &cards!(Seven, Diamonds; Ace, Clubs;)),
    ("cards!(Seven, Clubs; Two, Spades;)", &[23,0], &cards!(Seven, Clubs; Two, Spades;)),
    ("cards!(Seven, Clubs; Two, Hearts)", &[23,1], &cards!(Seven, Clubs; Two, Hearts)),
    ("cards!(Seven, Clubs; Two, Diamonds;)", &[23,2], &cards!(Seven, Clubs; Two, Diamonds;)),
    ("cards!(Seven, Clubs; Two, Clubs)", &[23,3], &cards!(Seven, Clubs; Two, Clubs)),
    ("cards!(Seven, Clubs; Three, Spades;)", &[23,4], &cards!(Seven, Clubs; Three, Spades;)),
    ("cards!(Seven, Clubs; Three, Hearts)", &[23,5], &cards!(Seven, Clubs; Three, Hearts)),
    ("cards!(Seven, Clubs; Three, Diamonds;)", &[23,6], &cards!(Seven, Clubs; Three, Diamonds;)),
    ("cards!(Seven, Clubs; Three, Clubs)", &[23,7], &cards!(Seven, Clubs; Three, Clubs)),
    ("cards!(Seven, Clubs; Four, Spades;)", &[23,8], &cards!(Seven, Clubs; Four, Spades;)),
    ("cards!(Seven, Clubs; Four, Hearts)", &[23,9], &cards!(Seven, Clubs; Four, Hearts)),
    ("cards!(Seven, Clubs; Four, Diamonds;)", &[23,10], &cards!(Seven, Clubs; Four, Diamonds;)),
    ("cards!(Seven, Clubs; Four, Clubs)", &[23,11], &cards!(Seven, Clubs; Four, Clubs)),
    ("cards!(Seven, Clubs; Five, Spades;)", &[23,12], &cards!(Seven, Clubs; Five, Spades;)),
    ("cards!(Seven, Clubs; Five, Hearts)", &[23,13], &cards!(Seven, Clubs; Five, Hearts)),
    ("cards!(Seven, Clubs; Five, Diamonds;)", &[23,14], &cards!(Seven, Clubs; Five, Diamonds;)),
    ("cards!(Seven, Clubs; Five, Clubs)", &[23,15], &cards!(Seven, Clubs; Five, Clubs)),
    ("cards!(Seven, Clubs; Six, Spades;)", &[23,16], &cards!(Seven, Clubs; Six, Spades;)),
    ("cards!(Seven, Clubs; Six, Hearts)", &[23,17], &cards!(Seven, Clubs; Six, Hearts)),
    ("cards!(Seven, Clubs; Six, Diamonds;)", &[23,18], &cards!(Seven, Clubs; Six, Diamonds;)),
    ("cards!(Seven, Clubs; Six, Clubs)", &[23,19], &cards!(Seven, Clubs; Six, Clubs)),
    ("cards!(Seven, Clubs; Seven, Spades;)", &[23,20], &cards!(Seven, Clubs; Seven, Spades;)),
    ("cards!(Seven, Clubs; Seven, Hearts)", &[23,21], &cards!(Seven, Clubs; Seven, Hearts)),
    ("cards!(Seven, Clubs; Seven, Diamonds;)", &[23,22], &cards!(Seven, Clubs; Seven, Diamonds;)),
    ("cards!(Seven, Clubs; Seven, Clubs)", &[23,23], &cards!(Seven, Clubs; Seven, Clubs)),
    ("cards!(Seven, Clubs; Eight, Spades;)", &[23,24], &cards!(Seven, Clubs; Eight, Spades;)),
    ("cards!(Seven, Clubs; Eight, Hearts)", &[23,25], &cards!(Seven, Clubs; Eight, Hearts)),
    ("cards!(Seven, Clubs; Eight, Diamonds;)", &[23,26], &cards!(Seven, Clubs; Eight, Diamonds;)),
    ("cards!(Seven, Clubs; Eight, Clubs)", &[23,27], &cards!(Seven, Clubs; Eight, Clubs)),
    ("cards!(Seven, Clubs; Nine, Spades;)", &[23,28], &cards!(Seven, Clubs; Nine, Spades;)),
    ("cards!(Seven, Clubs; Nine, Hearts)", &[23,29], &cards!(Seven, Clubs; Nine, Hearts)),
    ("cards!(Seven, Clubs; Nine, Diamonds;)", &[23,30], &cards!(Seven, Clubs; Nine, Diamonds;)),
    ("cards!(Seven, Clubs; Nine, Clubs)", &[23,31], &cards!(Seven, Clubs; Nine, Clubs)),
    ("cards!(Seven, Clubs; Ten, Spades;)", &[23,32], &cards!(Seven, Clubs; Ten, Spades;)),
    ("cards!(Seven, Clubs; Ten, Hearts)", &[23,33], &cards!(Seven, Clubs; Ten, Hearts)),
    ("cards!(Seven, Clubs; Ten, Diamonds;)", &[23,34], &cards!(Seven, Clubs; Ten, Diamonds;)),
    ("cards!(Seven, Clubs; Ten, Clubs)", &[23,35], &cards!(Seven, Clubs; Ten, Clubs)),
    ("cards!(Seven, Clubs; Jack, Spades;)", &[23,36], &cards!(Seven, Clubs; Jack, Spades;)),
    ("cards!(Seven, Clubs; Jack, Hearts)", &[23,37], &cards!(Seven, Clubs; Jack, Hearts)),
    ("cards!(Seven, Clubs; Jack, Diamonds;)", &[23,38], &cards!(Seven, Clubs; Jack, Diamonds;)),
    ("cards!(Seven, Clubs; Jack, Clubs)", &[23,39], &cards!(Seven, Clubs; Jack, Clubs)),
    ("cards!(Seven, Clubs; Queen, Spades;)", &[23,40], &cards!(Seven, Clubs; Queen, Spades;)),
    ("cards!(Seven, Clubs; Queen, Hearts)", &[23,41], &cards!(Seven, Clubs; Queen, Hearts)),
    ("cards!(Seven, Clubs; Queen, Diamonds;)", &[23,42], &cards!(Seven, Clubs; Queen, Diamonds;)),
    ("cards!(Seven, Clubs; Queen, Clubs)", &[23,43], &cards!(Seven, Clubs; Queen, Clubs)),
    ("cards!(Seven, Clubs; King, Spades;)", &[23,44], &cards!(Seven, Clubs; King, Spades;)),
    ("cards!(Seven, Clubs; King, Hearts)", &[23,45], &cards!(Seven, Clubs; King, Hearts)),
    ("cards!(Seven, Clubs; King, Diamonds;)", &[23,46], &cards!(Seven, Clubs; King, Diamonds;)),
    ("cards!(Seven, Clubs; King, Clubs)", &[23,47], &cards!(Seven, Clubs; King, Clubs)),
    ("cards!(Seven, Clubs; Ace, Spades;)", &[23,48], &cards!(Seven, Clubs; Ace, Spades;)),
    ("cards!(Seven, Clubs; Ace, Hearts)", &[23,49], &cards!(Seven, Clubs; Ace, Hearts)),
    ("cards!(Seven, Clubs; Ace, Diamonds;)", &[23,50], &cards!(Seven, Clubs; Ace, Diamonds;)),
    ("cards!(Seven, Clubs; Ace, Clubs)", &[23,51], &cards!(Seven, Clubs; Ace, Clubs)),
    ("cards!(Eight, Spades; Two, Spades)", &[24,0], &cards!(Eight, Spades; Two, Spades)),
    ("cards!(Eight, Spades; Two, Hearts;)", &[24,1], &cards!(Eight, Spades; Two, Hearts;)),
    ("cards!(Eight, Spades; Two, Diamonds)", &[24,2], &cards!(Eight, Spades; Two, Diamonds)),
    ("cards!(Eight, Spades; Two, Clubs;)", &[24,3], &cards!(Eight, Spades; Two, Clubs;)),
    ("cards!(Eight, Spades; Three, Spades)", &[24,4], &cards!(Eight, Spades; Three, Spades)),
    ("cards!(Eight, Spades; Three, Hearts;)", &[24,5], &cards!(Eight, Spades; Three, Hearts;)),
    ("cards!(Eight, Spades; Three, Diamonds)", &[24,6], &cards!(Eight, Spades; Three, Diamonds)),
    ("cards!(Eight, Spades; Three, Clubs;)", &[24,7], &cards!(Eight, Spades; Three, Clubs;)),
    ("cards!(Eight, Spades; Four, Spades)", &[24,8], &cards!(Eight, Spades; Four, Spades)),
    ("cards!(Eight, Spades; Four, Hearts;)", &[24,9], &cards!(Eight, Spades; Four, Hearts;)),
    ("cards!(Eight, Spades; Four, Diamonds)", &[24,10], &cards!(Eight, Spades; Four, Diamonds)),
    ("cards!(Eight, Spades; Four, Clubs;)", &[24,11], &cards!(Eight, Spades; Four, Clubs;)),
    ("cards!(Eight, Spades; Five, Spades)", &[24,12], &cards!(Eight, Spades; Five, Spades)),
    ("cards!(Eight, Spades; Five, Hearts;)", &[24,13], &cards!(Eight, Spades; Five, Hearts;)),
    ("cards!(Eight, Spades; Five, Diamonds)", &[24,14], &cards!(Eight, Spades; Five, Diamonds)),
    ("cards!(Eight, Spades; Five, Clubs;)", &[24,15], &cards!(Eight, Spades; Five, Clubs;)),
    ("cards!(Eight, Spades; Six, Spades)", &[24,16], &cards!(Eight, Spades; Six, Spades)),
    ("cards!(Eight, Spades; Six, Hearts;)", &[24,17], &cards!(Eight, Spades; Six, Hearts;)),
    ("cards!(Eight, Spades; Six, Diamonds)", &[24,18], &cards!(Eight, Spades; Six, Diamonds)),
    ("cards!(Eight, Spades; Six, Clubs;)", &[24,19], &cards!(Eight, Spades; Six, Clubs;)),
    ("cards!(Eight, Spades; Seven, Spades)", &[24,20], &cards!(Eight, Spades; Seven, Spades)),
    ("cards!(Eight, Spades; Seven, Hearts;)", &[24,21], &cards!(Eight, Spades; Seven, Hearts;)),
    ("cards!(Eight, Spades; Seven, Diamonds)", &[24,22], &cards!(Eight, Spades; Seven, Diamonds)),
    ("cards!(Eight, Spades; Seven, Clubs;)", &[24,23], &cards!(Eight, Spades; Seven, Clubs;)),
    ("cards!(Eight, Spades; Eight, Spades)", &[24,24], &cards!(Eight, Spades; Eight, Spades)),
    ("cards!(Eight, Spades; Eight, Hearts;)", &[24,25], &cards!(Eight, Spades; Eight, Hearts;)),
    ("cards!(Eight, Spades; Eight, Diamonds)", &[24,26], &cards!(Eight, Spades; Eight, Diamonds)),
    ("cards!(Eight, Spades; Eight, Clubs;)", &[24,27], &cards!(Eight, Spades; Eight, Clubs;)),
    ("cards!(Eight, Spades; Nine, Spades)", &[24,28], &cards!(Eight, Spades; Nine, Spades)),
    ("cards!(Eight, Spades; Nine, Hearts;)", &[24,29], &cards!(Eight, Spades; Nine, Hearts;)),
    ("cards!(Eight, Spades; Nine, Diamonds)", &[24,30], &cards!(Eight, Spades; Nine, Diamonds)),
    ("cards!(Eight, Spades; Nine, Clubs;)", &[24,31], &cards!(Eight, Spades; Nine, Clubs;)),
    ("cards!(Eight, Spades; Ten, Spades)", &[24,32], &cards!(Eight, Spades; Ten, Spades)),
    ("cards!(Eight, Spades; Ten, Hearts;)", &[24,33], &cards!(Eight, Spades; Ten, Hearts;)),
    ("cards!(Eight, Spades; Ten, Diamonds)", &[24,34], &cards!(Eight, Spades; Ten, Diamonds)),
    ("cards!(Eight, Spades; Ten, Clubs;)", &[24,35], &cards!(Eight, Spades; Ten, Clubs;)),
    ("cards!(Eight, Spades; Jack, Spades)", &[24,36], &cards!(Eight, Spades; Jack, Spades)),
    ("cards!(Eight, Spades; Jack, Hearts;)", &[24,37], &cards!(Eight, Spades; Jack, Hearts;)),
    ("cards!(Eight, Spades; Jack, Diamonds)", &[24,38], &cards!(Eight, Spades; Jack, Diamonds)),
    ("cards!(Eight, Spades; Jack, Clubs;)", &[24,39], &cards!(Eight, Spades; Jack, Clubs;)),
    ("cards!(Eight, Spades; Queen, Spades)", &[24,40], &cards!(Eight, Spades; Queen, Spades)),
    ("cards!(Eight, Spades; Queen, Hearts;)", &[24,41], &cards!(Eight, Spades; Queen, Hearts;)),
    ("cards!(Eight, Spades; Queen, Diamonds)", &[24,42], &cards!(Eight, Spades; Queen, Diamonds)),
    ("cards!(Eight, Spades; Queen, Clubs;)", &[24,43], &cards!(Eight, Spades; Queen, Clubs;)),
    ("cards!(Eight, Spades; King, Spades)", &[24,44], &cards!(Eight, Spades; King, Spades)),
    ("cards!(Eight, Spades; King, Hearts;)", &[24,45], &cards!(Eight, Spades; King, Hearts;)),
    ("cards!(Eight, Spades; King, Diamonds)", &[24,46], &cards!(Eight, Spades; King, Diamonds)),
    ("cards!(Eight, Spades; King, Clubs;)", &[24,47], &cards!(Eight, Spades; King, Clubs;)),
    ("cards!(Eight, Spades; Ace, Spades)", &[24,48], &cards!(Eight, Spades; Ace, Spades)),
    ("cards!(Eight, Spades; Ace, Hearts;)", &[24,49], &cards!(Eight, Spades; Ace, Hearts;)),
    ("cards!(Eight, Spades; Ace, Diamonds)", &[24,50], &cards!(Eight, Spades; Ace, Diamonds)),
    ("cards!(Eight, Spades; Ace, Clubs;)", &[24,51], &cards!(Eight, Spades; Ace, Clubs;)),
    ("cards!(Eight, Hearts; Two, Spades;)", &[25,0], &cards!(Eight, Hearts; Two, Spades;)),
    ("cards!(Eight, Hearts; Two, Hearts)", &[25,1], &cards!(Eight, Hearts; Two, Hearts)),
    ("cards!(Eight, Hearts; Two, Diamonds;)", &[25,2], &cards!(Eight, Hearts; Two, Diamonds;)),
    ("cards!(Eight, Hearts; Two, Clubs)", &[25,3], &cards!(Eight, Hearts; Two, Clubs)),
    ("cards!(Eight, Hearts; Three, Spades;)", &[25,4], &cards!(Eight, Hearts; Three, Spades;)),
    ("cards!(Eight, Hearts; Three, Hearts)", &[25,5], &cards!(Eight, Hearts; Three, Hearts)),
    ("cards!(Eight, Hearts; Three, Diamonds;)", &[25,6], &cards!(Eight, Hearts; Three, Diamonds;)),
    ("cards!(Eight, Hearts; Three, Clubs)", &[25,7], &cards!(Eight, Hearts; Three, Clubs)),
    ("cards!(Eight, Hearts; Four, Spades;)", &[25,8], &cards!(Eight, Hearts; Four, Spades;)),
    ("cards!(Eight, Hearts; Four, Hearts)", &[25,9], &cards!(Eight, Hearts; Four, Hearts)),
    ("cards!(Eight, Hearts; Four, Diamonds;)", &[25,10], &cards!(Eight, Hearts; Four, Diamonds;)),
    ("cards!(Eight, Hearts; Four, Clubs)", &[25,11], &cards!(Eight, Hearts; Four, Clubs)),
    ("cards!(Eight, Hearts; Five, Spades;)", &[25,12], &cards!(Eight, Hearts; Five, Spades;)),
    ("cards!(Eight, Hearts; Five, Hearts)", &[25,13], &cards!(Eight, Hearts; Five, Hearts)),
    ("cards!(Eight, Hearts; Five, Diamonds;)", &[25,14], &cards!(Eight, Hearts; Five, Diamonds;)),
    ("cards!(Eight, Hearts; Five, Clubs)", &[25,15], &cards!(Eight, Hearts; Five, Clubs)),
    ("cards!(Eight, Hearts; Six, Spades;)", &[25,16], &cards!(Eight, Hearts; Six, Spades;)),
    ("cards!(Eight, Hearts; Six, Hearts)", &[25,17], &cards!(Eight, Hearts; Six, Hearts)),
    ("cards!(Eight, Hearts; Six, Diamonds;)", &[25,18], &cards!(Eight, Hearts; Six, Diamonds;)),
    ("cards!(Eight, Hearts; Six, Clubs)", &[25,19], &cards!(Eight, Hearts; Six, Clubs)),
    ("cards!(Eight, Hearts; Seven, Spades;)", &[25,20], &cards!(Eight, Hearts; Seven, Spades;)),
    ("cards!(Eight, Hearts; Seven, Hearts)", &[25,21], &cards!(Eight, Hearts; Seven, Hearts)),
    ("cards!(Eight, Hearts; Seven, Diamonds;)", &[25,22], &cards!(Eight, Hearts; Seven, Diamonds;)),
    ("cards!(Eight, Hearts; Seven, Clubs)", &[25,23], &cards!(Eight, Hearts; Seven, Clubs)),
    ("cards!(Eight, Hearts; Eight, Spades;)", &[25,24], &cards!(Eight, Hearts; Eight, Spades;)),
    ("cards!(Eight, Hearts; Eight, Hearts)", &[25,25], &cards!(Eight, Hearts; Eight, Hearts)),
    ("cards!(Eight, Hearts; Eight, Diamonds;)", &[25,26], &cards!(Eight, Hearts; Eight, Diamonds;)),
    ("cards!(Eight, Hearts; Eight, Clubs)", &[25,27], &cards!(Eight, Hearts; Eight, Clubs)),
    ("cards!(Eight, Hearts; Nine, Spades;)", &[25,28], &cards!(Eight, Hearts; Nine, Spades;)),
    ("cards!(Eight, Hearts; Nine, Hearts)", &[25,29], &cards!(Eight, Hearts; Nine, Hearts)),
    ("cards!(Eight, Hearts; Nine, Diamonds;)", &[25,30], &cards!(Eight, Hearts; Nine, Diamonds;)),
    ("cards!(Eight, Hearts; Nine, Clubs)", &[25,31], &cards!(Eight, Hearts; Nine, Clubs)),
    ("cards!(Eight, Hearts; Ten, Spades;)", &[25,32], &cards!(Eight, Hearts; Ten, Spades;)),
    ("cards!(Eight, Hearts; Ten, Hearts)", &[25,33], &cards!(Eight, Hearts; Ten, Hearts)),
    ("cards!(Eight, Hearts; Ten, Diamonds;)", &[25,34], &cards!(Eight, Hearts; Ten, Diamonds;)),
    ("cards!(Eight, Hearts; Ten, Clubs)", &[25,35], &cards!(Eight, Hearts; Ten, Clubs)),
    ("cards!(Eight, Hearts; Jack, Spades;)", &[25,36], &cards!(Eight, Hearts; Jack, Spades;)),
    ("cards!(Eight, Hearts; Jack, Hearts)", &[25,37], &cards!(Eight, Hearts; Jack, Hearts)),
    ("cards!(Eight, Hearts; Jack, Diamonds;)", &[25,38], &cards!(Eight, Hearts; Jack, Diamonds;)),
    ("cards!(Eight, Hearts; Jack, Clubs)", &[25,39], &cards!(Eight, Hearts; Jack, Clubs)),
    ("cards!(Eight, Hearts; Queen, Spades;)", &[25,40], &cards!(Eight, Hearts; Queen, Spades;)),
    ("cards!(Eight, Hearts; Queen, Hearts)", &[25,41], &cards!(Eight, Hearts; Queen, Hearts)),
    ("cards!(Eight, Hearts; Queen, Diamonds;)", &[25,42], &cards!(Eight, Hearts; Queen, Diamonds;)),
    ("cards!(Eight, Hearts; Queen, Clubs)", &[25,43], &cards!(Eight, Hearts; Queen, Clubs)),
    ("cards!(Eight, Hearts; King, Spades;)", &[25,44], &cards!(Eight, Hearts; King, Spades;)),
    ("cards!(Eight, Hearts; King, Hearts)", &[25,45], &cards!(Eight, Hearts; King, Hearts)),
    ("cards!(Eight, Hearts; King, Diamonds;)", &[25,46], &cards!(Eight, Hearts; King, Diamonds;)),
    ("cards!(Eight, Hearts; King, Clubs)", &[25,47], &cards!(Eight, Hearts; King, Clubs)),
    ("cards!(Eight, Hearts; Ace, Spades;)", &[25,48], &cards!(Eight, Hearts; Ace, Spades;)),
    ("cards!(Eight, Hearts; Ace, Hearts)", &[25,49], &cards!(Eight, Hearts; Ace, Hearts)),
    ("cards!(Eight, Hearts; Ace, Diamonds;)", &[25,50], &cards!(Eight, Hearts; Ace, Diamonds;)),
    ("cards!(Eight, Hearts; Ace, Clubs)", &[25,51], &cards!(Eight, Hearts; Ace, Clubs)),
    ("cards!(Eight, Diamonds; Two, Spades)", &[26,0], &cards!(Eight, Diamonds; Two, Spades)),
    ("cards!(Eight, Diamonds; Two, Hearts;)", &[26,1], &cards!(Eight, Diamonds; Two, Hearts;)),
    ("cards!(Eight, Diamonds; Two, Diamonds)", &[26,2], &cards!(Eight, Diamonds; Two, Diamonds)),
    ("cards!(Eight, Diamonds; Two, Clubs;)", &[26,3], &cards!(Eight, Diamonds; Two, Clubs;)),
    ("cards!(Eight, Diamonds; Three, Spades)", &[26,4], &cards!(Eight, Diamonds; Three, Spades)),
    ("cards!(Eight, Diamonds; Three, Hearts;)", &[26,5], &cards!(Eight, Diamonds; Three, Hearts;)),
    ("cards!(Eight, Diamonds; Three, Diamonds)", &[26,6], &cards!(Eight, Diamonds; Three, Diamonds)),
    ("cards!(Eight, Diamonds; Three, Clubs;)", &[26,7], &cards!(Eight, Diamonds; Three, Clubs;)),
    ("cards!(Eight, Diamonds; Four, Spades)", &[26,8], &cards!(Eight, Diamonds; Four, Spades)),
    ("cards!(Eight, Diamonds; Four, Hearts;)", &[26,9], &cards!(Eight, Diamonds; Four, Hearts;)),
    ("cards!(Eight, Diamonds; Four, Diamonds)", &[26,10], &cards!(Eight, Diamonds; Four, Diamonds)),
    ("cards!(Eight, Diamonds; Four, Clubs;)", &[26,11], &cards!(Eight, Diamonds; Four, Clubs;)),
    ("cards!(Eight, Diamonds; Five, Spades)", &[26,12], &cards!(Eight, Diamonds; Five, Spades)),
    ("cards!(Eight, Diamonds; Five, Hearts;)", &[26,13], &cards!(Eight, Diamonds; Five, Hearts;)),
    ("cards!(Eight, Diamonds; Five, Diamonds)", &[26,14], &cards!(Eight, Diamonds; Five, Diamonds)),
    ("cards!(Eight, Diamonds; Five, Clubs;)", &[26,15], &cards!(Eight, Diamonds; Five, Clubs;)),
    ("cards!(Eight, Diamonds; Six, Spades)", &[26,16], &cards!(Eight, Diamonds; Six, Spades)),
    ("cards!(Eight, Diamonds; Six, Hearts;)", &[26,17], &cards!(Eight, Diamonds; Six, Hearts;)),
    ("cards!(Eight, Diamonds; Six, Diamonds)", &[26,18], &cards!(Eight, Diamonds; Six, Diamonds)),
    ("cards!(Eight, Diamonds; Six, Clubs;)", &[26,19], &cards!(Eight, Diamonds; Six, Clubs;)),
    ("cards!(Eight, Diamonds; Seven, Spades)", &[26,20], &cards!(Eight, Diamonds; Seven, Spades)),
    ("cards!(Eight, Diamonds; Seven, Hearts;)", &[26,21], &cards!(Eight, Diamonds; Seven, Hearts;)),
    ("cards!(Eight, Diamonds; Seven, Diamonds)", &[26,22], &cards!(Eight, Diamonds; Seven, Diamonds)),
    ("cards!(Eight, Diamonds; Seven, Clubs;)", &[26,23], &cards!(Eight, Diamonds; Seven, Clubs;)),
    ("cards!(Eight, Diamonds; Eight, Spades)", &[26,24], &cards!(Eight, Diamonds; Eight, Spades)),
    ("cards!(Eight, Diamonds; Eight, Hearts;)", &[26,25], &cards!(Eight, Diamonds; Eight, Hearts;)),
    ("cards!(Eight, Diamonds; Eight, Diamonds)", &[26,26], &cards!(Eight, Diamonds; Eight, Diamonds)),
    ("cards!(Eight, Diamonds; Eight, Clubs;)", &[26,27], &cards!(Eight, Diamonds; Eight, Clubs;)),
    ("cards!(Eight, Diamonds; Nine, Spades)", &[26,28], &cards!(Eight, Diamonds; Nine, Spades)),
    ("cards!(Eight, Diamonds; Nine, Hearts;)", &[26,29], &cards!(Eight, Diamonds; Nine, Hearts;)),
    ("cards!(Eight, Diamonds; Nine, Diamonds)", &[26,30], &cards!(Eight, Diamonds; Nine, Diamonds)),
    ("cards!(Eight, Diamonds; Nine, Clubs;)", &[26,31], &cards!(Eight, Diamonds; Nine, Clubs;)),
    ("cards!(Eight, Diamonds; Ten, Spades)", &[26,32], &cards!(Eight, Diamonds; Ten, Spades)),
    ("cards!(Eight, Diamonds; Ten, Hearts;)", &[26,33], &cards!(Eight, Diamonds; Ten, Hearts;)),
    ("cards!(Eight, Diamonds; Ten, Diamonds)", &[26,34], &cards!(Eight, Diamonds; Ten, Diamonds)),
    ("cards!(Eight, Diamonds; Ten, Clubs;)", &[26,35], &cards!(Eight, Diamonds; Ten, Clubs;)),
    ("cards!(Eight, Diamonds; Jack, Spades)", &[26,36], &cards!(Eight, Diamonds; Jack, Spades)),
    ("cards!(Eight, Diamonds; Jack, Hearts;)", &[26,37], &cards!(Eight, Diamonds; Jack, Hearts;)),
    ("cards!(Eight, Diamonds; Jack, Diamonds)", &[26,38], &cards!(Eight, Diamonds; Jack, Diamonds)),
    ("cards!(Eight, Diamonds; Jack, Clubs;)", &[26,39], &cards!(Eight, Diamonds; Jack, Clubs;)),
    ("cards!(Eight, Diamonds; Queen, Spades)", &[26,40], &cards!(Eight, Diamonds; Queen, Spades)),
    ("cards!(Eight, Diamonds; Queen, Hearts;)", &[26,41], &cards!(Eight, Diamonds; Queen, Hearts;)),
    ("cards!(Eight, Diamonds; Queen, Diamonds)", &[26,42], &cards!(Eight, Diamonds; Queen, Diamonds)),
    ("cards!(Eight, Diamonds; Queen, Clubs;)", &[26,43], &cards!(Eight, Diamonds; Queen, Clubs;)),
    ("cards!(Eight, Diamonds; King, Spades)", &[26,44], &cards!(Eight, Diamonds; King, Spades)),
    ("cards!(Eight, Diamonds; King, Hearts;)", &[26,45], &cards!(Eight, Diamonds; King, Hearts;)),
    ("cards!(Eight, Diamonds; King, Diamonds)", &[26,46], &cards!(Eight, Diamonds; King, Diamonds)),
    ("cards!(Eight, Diamonds; King, Clubs;)", &[26,47], &cards!(Eight, Diamonds; King, Clubs;)),
    ("cards!(Eight, Diamonds; Ace, Spades)", &[26,48], &cards!(Eight, Diamonds; Ace, Spades)),
    ("cards!(Eight, Diamonds; Ace, Hearts;)", &[26,49], &cards!(Eight, Diamonds; Ace, Hearts;)),
    ("cards!(Eight, Diamonds; Ace, Diamonds)", &[26,50], &cards!(Eight, Diamonds; Ace, Diamonds)),
    ("cards!(Eight, Diamonds; Ace, Clubs;)", &[26,51], &cards!(Eight, Diamonds; Ace, Clubs;)),
    ("cards!(Eight, Clubs; Two, Spades;)", &[27,0], &cards!(Eight, Clubs; Two, Spades;)),
    ("cards!(Eight, Clubs; Two, Hearts)", &[27,1], &cards!(Eight, Clubs; Two, Hearts)),
    ("cards!(Eight, Clubs; Two, Diamonds;)", &[27,2], &cards!(Eight, Clubs; Two, Diamonds;)),
    ("cards!(Eight, Clubs; Two, Clubs)", &[27,3], &cards!(Eight, Clubs; Two, Clubs)),
    ("cards!(Eight, Clubs; Three, Spades;)", &[27,4], &cards!(Eight, Clubs; Three, Spades;)),
    ("cards!(Eight, Clubs; Three, Hearts)", &[27,5], &cards!(Eight, Clubs; Three, Hearts)),
    ("cards!(Eight, Clubs; Three, Diamonds;)", &[27,6], &cards!(Eight, Clubs; Three, Diamonds;)),
    ("cards!(Eight, Clubs; Three, Clubs)", &[27,7], &cards!(Eight, Clubs; Three, Clubs)),
    ("cards!(Eight, Clubs; Four, Spades;)", &[27,8], &cards!(Eight, Clubs; Four, Spades;)),
    ("cards!(Eight, Clubs; Four, Hearts)", &[27,9], &cards!(Eight, Clubs; Four, Hearts)),
    ("cards!(Eight, Clubs; Four, Diamonds;)", &[27,10], &cards!(Eight, Clubs; Four, Diamonds;)),
    ("cards!(Eight, Clubs; Four, Clubs)", &[27,11], &cards!(Eight, Clubs; Four, Clubs)),
    ("cards!(Eight, Clubs; Five, Spades;)", &[27,12], &cards!(Eight, Clubs; Five, Spades;)),
    ("cards!(Eight, Clubs; Five, Hearts)", &[27,13], &cards!(Eight, Clubs; Five, Hearts)),
    ("cards!(Eight, Clubs; Five, Diamonds;)", &[27,14], &cards!(Eight, Clubs; Five, Diamonds;)),
    ("cards!(Eight, Clubs; Five, Clubs)", &[27,15], &cards!(Eight, Clubs; Five, Clubs)),
    ("cards!(Eight, Clubs; Six, Spades;)", &[27,16], &cards!(Eight, Clubs; Six, Spades;)),
    ("cards!(Eight, Clubs; Six, Hearts)", &[27,17], &cards!(Eight, Clubs; Six, Hearts)),
    ("cards!(Eight, Clubs; Six, Diamonds;)", &[27,18], &cards!(Eight, Clubs; Six, Diamonds;)),
    ("cards!(Eight, Clubs; Six, Clubs)", &[27,19], &cards!(Eight, Clubs; Six, Clubs)),
    ("cards!(Eight, Clubs; Seven, Spades;)", &[27,20], &cards!(Eight, Clubs; Seven, Spades;)),
    ("cards!(Eight, Clubs; Seven, Hearts)", &[27,21], &cards!(Eight, Clubs; Seven, Hearts)),
    ("cards!(Eight, Clubs; Seven, Diamonds;)", &[27,22], &cards!(Eight, Clubs; Seven, Diamonds;)),
    ("cards!(Eight, Clubs; Seven, Clubs)", &[27,23], &cards!(Eight, Clubs; Seven, Clubs)),
    ("cards!(Eight, Clubs; Eight, Spades;)", &[27,24], &cards!(Eight, Clubs; Eight, Spades;)),
    ("cards!(Eight, Clubs; Eight, Hearts)", &[27,25], &cards!(Eight, Clubs; Eight, Hearts)),
    ("cards!(Eight, Clubs; Eight, Diamonds;)", &[27,26], &cards!(Eight, Clubs; Eight, Diamonds;)),
    ("cards!(Eight, Clubs; Eight, Clubs)", &[27,27], &cards!(Eight, Clubs; Eight, Clubs)),
    ("cards!(Eight, Clubs; Nine, Spades;)", &[27,28], &cards!(Eight, Clubs; Nine, Spades;)),
    ("cards!(Eight, Clubs; Nine, Hearts)", &[27,29], &cards!(Eight, Clubs; Nine, Hearts)),
    ("cards!(Eight, Clubs; Nine, Diamonds;)", &[27,30], &cards!(Eight, Clubs; Nine, Diamonds;)),
    ("cards!(Eight, Clubs; Nine, Clubs)", &[27,31], &cards!(Eight, Clubs; Nine, Clubs)),
    ("cards!(Eight, Clubs; Ten, Spades;)", &[27,32], &cards!(Eight, Clubs; Ten, Spades;)),
    ("cards!(Eight, Clubs; Ten, Hearts)", &[27,33], &cards!(Eight, Clubs; Ten, Hearts)),
    ("cards!(Eight, Clubs; Ten, Diamonds;)", &[27,34], &cards!(Eight, Clubs; Ten, Diamonds;)),
    ("cards!(Eight, Clubs; Ten, Clubs)", &[27,35], &cards!(Eight, Clubs; Ten, Clubs)),
    ("cards!(Eight, Clubs; Jack, Spades;)", &[27,36], &cards!(Eight, Clubs; Jack, Spades;)),
    ("cards!(Eight, Clubs; Jack, Hearts)", &[27,37], &cards!(Eight, Clubs; Jack, Hearts)),
    ("cards!(Eight, Clubs; Jack, Diamonds;)", &[27,38], &cards!(Eight, Clubs; Jack, Diamonds;)),
    ("cards!(Eight, Clubs; Jack, Clubs)", &[27,39], &cards!(Eight, Clubs; Jack, Clubs)),
    ("cards!(Eight, Clubs; Queen, Spades;)", &[27,40], &cards!(Eight, Clubs; Queen, Spades;)),
    ("cards!(Eight, Clubs; Queen, Hearts)", &[27,41], &cards!(Eight, Clubs; Queen, Hearts)),
    ("cards!(Eight, Clubs; Queen, Diamonds;)", &[27,42], &cards!(Eight, Clubs; Queen, Diamonds;)),
    ("cards!(Eight, Clubs; Queen, Clubs)", &[27,43], &cards!(Eight, Clubs; Queen, Clubs)),
    ("cards!(Eight, Clubs; King, Spades;)", &[27,44], &cards!(Eight, Clubs; King, Spades;)),
    ("cards!(Eight, Clubs; King, Hearts)", &[27,45], &cards!(Eight, Clubs; King, Hearts)),
    ("cards!(Eight, Clubs; King, Diamonds;)", &[27,46], &cards!(Eight, Clubs; King, Diamonds;)),
    ("cards!(Eight, Clubs; King, Clubs)", &[27,47], &cards!(Eight, Clubs; King, Clubs)),
    ("cards!(Eight, Clubs; Ace, Spades;)", &[27,48], &cards!(Eight, Clubs; Ace, Spades;)),
    ("cards!(Eight, Clubs; Ace, Hearts)", &[27,49], &cards!(Eight, Clubs; Ace, Hearts)),
    ("cards!(Eight, Clubs; Ace, Diamonds;)", &[27,50], &cards!(Eight, Clubs; Ace, Diamonds;)),
    ("cards!(Eight, Clubs; Ace, Clubs)", &[27,51], &cards!(Eight, Clubs; Ace, Clubs)),
    ("cards!(Nine, Spades; Two, Spades)", &[28,0], &cards!(Nine, Spades; Two, Spades)),
    ("cards!(Nine, Spades; Two, Hearts;)", &[28,1], &cards!(Nine, Spades; Two, Hearts;)),
    ("cards!(Nine, Spades; Two, Diamonds)", &[28,2], &cards!(Nine, Spades; Two, Diamonds)),
    ("cards!(Nine, Spades; Two, Clubs;)", &[28,3], &cards!(Nine, Spades; Two, Clubs;)),
    ("cards!(Nine, Spades; Three, Spades)", &[28,4], &cards!(Nine, Spades; Three, Spades)),
    ("cards!(Nine, Spades; Three, Hearts;)", &[28,5], &cards!(Nine, Spades; Three, Hearts;)),
    ("cards!(Nine, Spades; Three, Diamonds)", &[28,6], &cards!(Nine, Spades; Three, Diamonds)),
    ("cards!(Nine, Spades; Three, Clubs;)", &[28,7], &cards!(Nine, Spades; Three, Clubs;)),
    ("cards!(Nine, Spades; Four, Spades)", &[28,8], &cards!(Nine, Spades; Four, Spades)),
    ("cards!(Nine, Spades; Four, Hearts;)", &[28,9], &cards!(Nine, Spades; Four, Hearts;)),
    ("cards!(Nine, Spades; Four, Diamonds)", &[28,10], &cards!(Nine, Spades; Four, Diamonds)),
    ("cards!(Nine, Spades; Four, Clubs;)", &[28,11], &cards!(Nine, Spades; Four, Clubs;)),
    ("cards!(Nine, Spades; Five, Spades)", &[28,12], &cards!(Nine, Spades; Five, Spades)),
    ("cards!(Nine, Spades; Five, Hearts;)", &[28,13], &cards!(Nine, Spades; Five, Hearts;)),
    ("cards!(Nine, Spades; Five, Diamonds)", &[28,14], &cards!(Nine, Spades; Five, Diamonds)),
    ("cards!(Nine, Spades; Five, Clubs;)", &[28,15], &cards!(Nine, Spades; Five, Clubs;)),
    ("cards!(Nine, Spades; Six, Spades)", &[28,16], &cards!(Nine, Spades; Six, Spades)),
    ("cards!(Nine, Spades; Six, Hearts;)", &[28,17], &cards!(Nine, Spades; Six, Hearts;)),
    ("cards!(Nine, Spades; Six, Diamonds)", &[28,18], &cards!(Nine, Spades; Six, Diamonds)),
    ("cards!(Nine, Spades; Six, Clubs;)", &[28,19], &cards!(Nine, Spades; Six, Clubs;)),
    ("cards!(Nine, Spades; Seven, Spades)", &[28,20], &cards!(Nine, Spades; Seven, Spades)),
    ("cards!(Nine, Spades; Seven, Hearts;)", &[28,21], &cards!(Nine, Spades; Seven, Hearts;)),
    ("cards!(Nine, Spades; Seven, Diamonds)", &[28,22], &cards!(Nine, Spades; Seven, Diamonds)),
    ("cards!(Nine, Spades; Seven, Clubs;)", &[28,23], &cards!(Nine, Spades; Seven, Clubs;)),
    ("cards!(Nine, Spades; Eight, Spades)", &[28,24], &cards!(Nine, Spades; Eight, Spades)),
    ("cards!(Nine, Spades; Eight, Hearts;)", &[28,25], &cards!(Nine, Spades; Eight, Hearts;)),
    ("cards!(Nine, Spades; Eight, Diamonds)", &[28,26], &cards!(Nine, Spades; Eight, Diamonds)),
    ("cards!(Nine, Spades; Eight, Clubs;)", &[28,27], &cards!(Nine, Spades; Eight, Clubs;)),
    ("cards!(Nine, Spades; Nine, Spades)", &[28,28], &cards!(Nine, Spades; Nine, Spades)),
    ("cards!(Nine, Spades; Nine, Hearts;)", &[28,29], &cards!(Nine, Spades; Nine, Hearts;)),
    ("cards!(Nine, Spades; Nine, Diamonds)", &[28,30], &cards!(Nine, Spades; Nine, Diamonds)),
    ("cards!(Nine, Spades; Nine, Clubs;)", &[28,31], &cards!(Nine, Spades; Nine, Clubs;)),
    ("cards!(Nine, Spades; Ten, Spades)", &[28,32], &cards!(Nine, Spades; Ten, Spades)),
    ("cards!(Nine, Spades; Ten, Hearts;)", &[28,33], &cards!(Nine, Spades; Ten, Hearts;)),
    ("cards!(Nine, Spades; Ten, Diamonds)", &[28,34], &cards!(Nine, Spades; Ten, Diamonds)),
    ("cards!(Nine, Spades; Ten, Clubs;)", &[28,35], &cards!(Nine, Spades; Ten, Clubs;)),
    ("cards!(Nine, Spades; Jack, Spades)", &[28,36], &cards!(Nine, Spades; Jack, Spades)),
    ("cards!(Nine, Spades; Jack, Hearts;)", &[28,37], &cards!(Nine, Spades; Jack, Hearts;)),
    ("cards!(Nine, Spades; Jack, Diamonds)", &[28,38], &cards!(Nine, Spades; Jack, Diamonds)),
    ("cards!(Nine, Spades; Jack, Clubs;)", &[28,39], &cards!(Nine, Spades; Jack, Clubs;)),
    ("cards!(Nine, Spades; Queen, Spades)", &[28,40], &cards!(Nine, Spades; Queen, Spades)),
    ("cards!(Nine, Spades; Queen, Hearts;)", &[28,41], &cards!(Nine, Spades; Queen, Hearts;)),
    ("cards!(Nine, Spades; Queen, Diamonds)", &[28,42], &cards!(Nine, Spades; Queen, Diamonds)),
    ("cards!(Nine, Spades; Queen, Clubs;)", &[28,43], &cards!(Nine, Spades; Queen, Clubs;)),
    ("cards!(Nine, Spades; King, Spades)", &[28,44], &cards!(Nine, Spades; King, Spades)),
    ("cards!(Nine, Spades; King, Hearts;)", &[28,45], &cards!(Nine, Spades; King, Hearts;)),
    ("cards!(Nine, Spades; King, Diamonds)", &[28,46], &cards!(Nine, Spades; King, Diamonds)),
    ("cards!(Nine, Spades; King, Clubs;)", &[28,47], &cards!(Nine, Spades; King, Clubs;)),
    ("cards!(Nine, Spades; Ace, Spades)", &[28,48], &cards!(Nine, Spades; Ace, Spades)),
    ("cards!(Nine, Spades; Ace, Hearts;)", &[28,49], &cards!(Nine, Spades; Ace, Hearts;)),
    ("cards!(Nine, Spades; Ace, Diamonds)", &[28,50], &cards!(Nine, Spades; Ace, Diamonds)),
    ("cards!(Nine, Spades; Ace, Clubs;)", &[28,51], &cards!(Nine, Spades; Ace, Clubs;)),
    ("cards!(Nine, Hearts; Two, Spades;)", &[29,0], &cards!(Nine, Hearts; Two, Spades;)),
    ("cards!(Nine, Hearts; Two, Hearts)", &[29,1], &cards!(Nine, Hearts; Two, Hearts)),
    ("cards!(Nine, Hearts; Two, Diamonds;)", &[29,2], &cards!(Nine, Hearts; Two, Diamonds;)),
    ("cards!(Nine, Hearts; Two, Clubs)", &[29,3], &cards!(Nine, Hearts; Two, Clubs)),
    ("cards!(Nine, Hearts; Three, Spades;)", &[29,4], &cards!(Nine, Hearts; Three, Spades;)),
    ("cards!(Nine, Hearts; Three, Hearts)", &[29,5], &cards!(Nine, Hearts; Three, Hearts)),
    ("cards!(Nine, Hearts; Three, Diamonds;)", &[29,6], &cards!(Nine, Hearts; Three, Diamonds;)),
    ("cards!(Nine, Hearts; Three, Clubs)", &[29,7], &cards!(Nine, Hearts; Three, Clubs)),
    ("cards!(Nine, Hearts; Four, Spades;)", &[29,8], &cards!(Nine, Hearts; Four, Spades;)),
    ("cards!(Nine, Hearts; Four, Hearts)", &[29,9], &cards!(Nine, Hearts; Four, Hearts)),
    ("cards!(Nine, Hearts; Four, Diamonds;)", &[29,10], &cards!(Nine, Hearts; Four, Diamonds;)),
    ("cards!(Nine, Hearts; Four, Clubs)", &[29,11], &cards!(Nine, Hearts; Four, Clubs)),
    ("cards!(Nine, Hearts; Five, Spades;)", &[29,12], &cards!(Nine, Hearts; Five, Spades;)),
    ("cards!(Nine, Hearts; Five, Hearts)", &[29,13], &cards!(Nine, Hearts; Five, Hearts)),
    ("cards!(Nine, Hearts; Five, Diamonds;)", &[29,14], &cards!(Nine, Hearts; Five, Diamonds;)),
    ("cards!(Nine, Hearts; Five, Clubs)", &[29,15], &cards!(Nine, Hearts; Five, Clubs)),
    ("cards!(Nine, Hearts; Six, Spades;)", &[29,16], &cards!(Nine, Hearts; Six, Spades;)),
    ("cards!(Nine, Hearts; Six, Hearts)", &[29,17], &cards!(Nine, Hearts; Six, Hearts)),
    ("cards!(Nine, Hearts; Six, Diamonds;)", &[29,18], &cards!(Nine, Hearts; Six, Diamonds;)),
    ("cards!(Nine, Hearts; Six, Clubs)", &[29,19], &cards!(Nine, Hearts; Six, Clubs)),
    ("cards!(Nine, Hearts; Seven, Spades;)", &[29,20], &cards!(Nine, Hearts; Seven, Spades;)),
    ("cards!(Nine, Hearts; Seven, Hearts)", &[29,21], &cards!(Nine, Hearts; Seven, Hearts)),
    ("cards!(Nine, Hearts; Seven, Diamonds;)", &[29,22], &cards!(Nine, Hearts; Seven, Diamonds;)),
    ("cards!(Nine, Hearts; Seven, Clubs)", &[29,23], &cards!(Nine, Hearts; Seven, Clubs)),
    ("cards!(Nine, Hearts; Eight, Spades;)", &[29,24], &cards!(Nine, Hearts; Eight, Spades;)),
    ("cards!(Nine, Hearts; Eight, Hearts)", &[29,25], &cards!(Nine, Hearts; Eight, Hearts)),
    ("cards!(Nine, Hearts; Eight, Diamonds;)", &[29,26], &cards!(Nine, Hearts; Eight, Diamonds;)),
    ("cards!(Nine, Hearts; Eight, Clubs)", &[29,27], &cards!(Nine, Hearts; Eight, Clubs)),
    ("cards!(Nine, Hearts; Nine, Spades;)", &[29,28], &cards!(Nine, Hearts; Nine, Spades;)),
    ("cards!(Nine, Hearts; Nine, Hearts)", &[29,29], &cards!(Nine, Hearts; Nine, Hearts)),
    ("cards!(Nine, Hearts; Nine, Diamonds;)", &[29,30], &cards!(Nine, Hearts; Nine, Diamonds;)),
    ("cards!(Nine, Hearts; Nine, Clubs)", &[29,31], &cards!(Nine, Hearts; Nine, Clubs)),
    ("cards!(Nine, Hearts; Ten, Spades;)", &[29,32], &cards!(Nine, Hearts; Ten, Spades;)),
    ("cards!(Nine, Hearts; Ten, Hearts)", &[29,33], &cards!(Nine, Hearts; Ten, Hearts)),
    ("cards!(Nine, Hearts; Ten, Diamonds;)", &[29,34], &cards!(Nine, Hearts; Ten, Diamonds;)),
    ("cards!(Nine, Hearts; Ten, Clubs)", &[29,35], &cards!(Nine, Hearts; Ten, Clubs)),
    ("cards!(Nine, Hearts; Jack, Spades;)", &[29,36], &cards!(Nine, Hearts; Jack, Spades;)),
    ("cards!(Nine, Hearts; Jack, Hearts)", &[29,37], &cards!(Nine, Hearts; Jack, Hearts)),
    ("cards!(Nine, Hearts; Jack, Diamonds;)", &[29,38], &cards!(Nine, Hearts; Jack, Diamonds;)),
    ("cards!(Nine, Hearts; Jack, Clubs)", &[29,39], &cards!(Nine, Hearts; Jack, Clubs)),
    ("cards!(Nine, Hearts; Queen, Spades;)", &[29,40], &cards!(Nine, Hearts; Queen, Spades;)),
    ("cards!(Nine, Hearts; Queen, Hearts)", &[29,41], &cards!(Nine, Hearts; Queen, Hearts)),
    ("cards!(Nine, Hearts; Queen, Diamonds;)", &[29,42], &cards!(Nine, Hearts; Queen, Diamonds;)),
    ("cards!(Nine, Hearts; Queen, Clubs)", &[29,43], &cards!(Nine, Hearts; Queen, Clubs)),
    ("cards!(Nine, Hearts; King, Spades;)", &[29,44], &cards!(Nine, Hearts; King, Spades;)),
    ("cards!(Nine, Hearts; King, Hearts)", &[29,45], &cards!(Nine, Hearts; King, Hearts)),
    ("cards!(Nine, Hearts; King, Diamonds;)", &[29,46], &cards!(Nine, Hearts; King, Diamonds;)),
    ("cards!(Nine, Hearts; King, Clubs)", &[29,47], &cards!(Nine, Hearts; King, Clubs)),
    ("cards!(Nine, Hearts; Ace, Spades;)", &[29,48], &cards!(Nine, Hearts; Ace, Spades;)),
    ("cards!(Nine, Hearts; Ace, Hearts)", &[29,49], &cards!(Nine, Hearts; Ace, Hearts)),
    ("cards!(Nine, Hearts; Ace, Diamonds;)", &[29,50], &cards!(Nine, Hearts; Ace, Diamonds;)),
    ("cards!(Nine, Hearts; Ace, Clubs)", &[29,51], &cards!(Nine, Hearts; Ace, Clubs)),
    ("cards!(Nine, Diamonds; Two, Spades)", &[30,0], &cards!(Nine, Diamonds; Two, Spades)),
    ("cards!(Nine, Diamonds; Two, Hearts;)", &[30,1], &cards!(Nine, Diamonds; Two, Hearts;)),
    ("cards!(Nine, Diamonds; Two, Diamonds)", &[30,2], &cards!(Nine, Diamonds; Two, Diamonds)),
    ("cards!(Nine, Diamonds; Two, Clubs;)", &[30,3], &cards!(Nine, Diamonds; Two, Clubs;)),
    ("cards!(Nine, Diamonds; Three, Spades)", &[30,4], &cards!(Nine, Diamonds; Three, Spades)),
    ("cards!(Nine, Diamonds; Three, Hearts;)", &[30,5], &cards!(Nine, Diamonds; Three, Hearts;)),
    ("cards!(Nine, Diamonds; Three, Diamonds)", &[30,6], &cards!(Nine, Diamonds; Three, Diamonds)),
    ("cards!(Nine, Diamonds; Three, Clubs;)", &[30,7], &cards!(Nine, Diamonds; Three, Clubs;)),
    ("cards!(Nine, Diamonds; Four, Spades)", &[30,8], &cards!(Nine, Diamonds; Four, Spades)),
    ("cards!(Nine, Diamonds; Four, Hearts;)", &[30,9], &cards!(Nine, Diamonds; Four, Hearts;)),
    ("cards!(Nine, Diamonds; Four, Diamonds)", &[30,10], &cards!(Nine, Diamonds; Four, Diamonds)),
    ("cards!(Nine, Diamonds; Four, Clubs;)", &[30,11], &cards!(Nine, Diamonds; Four, Clubs;)),
    ("cards!(Nine, Diamonds; Five, Spades)", &[30,12], &cards!(Nine, Diamonds; Five, Spades)),
    ("cards!(Nine, Diamonds; Five, Hearts;)", &[30,13], &cards!(Nine, Diamonds; Five, Hearts;)),
    ("cards!(Nine, Diamonds; Five, Diamonds)", &[30,14], &cards!(Nine, Diamonds; Five, Diamonds)),
    ("cards!(Nine, Diamonds; Five, Clubs;)", &[30,15], &cards!(Nine, Diamonds; Five, Clubs;)),
    ("cards!(Nine, Diamonds; Six, Spades)", &[30,16], &cards!(Nine, Diamonds; Six, Spades)),
    ("cards!(Nine, Diamonds; Six, Hearts;)", &[30,17], &cards!(Nine, Diamonds; Six, Hearts;)),
    ("cards!(Nine, Diamonds; Six, Diamonds)", &[30,18], &cards!(Nine, Diamonds; Six, Diamonds)),
    ("cards!(Nine, Diamonds; Six, Clubs;)", &[30,19], &cards!(Nine, Diamonds; Six, Clubs;)),
    ("cards!(Nine, Diamonds; Seven, Spades)", &[30,20], &cards!(Nine, Diamonds; Seven, Spades)),
    ("cards!(Nine, Diamonds; Seven, Hearts;)", &[30,21], &cards!(Nine, Diamonds; Seven, Hearts;)),
    ("cards!(Nine, Diamonds; Seven, Diamonds)", &[30,22], &cards!(Nine, Diamonds; Seven, Diamonds)),
    ("cards!(Nine, Diamonds; Seven, Clubs;)", &[30,23], &cards!(Nine, Diamonds; Seven, Clubs;)),
    ("cards!(Nine, Diamonds; Eight, Spades)", &[30,24], &cards!(Nine, Diamonds; Eight, Spades)),
    ("cards!(Nine, Diamonds; Eight, Hearts;)", &[30,25], &cards!(Nine, Diamonds; Eight, Hearts;)),
    ("cards!(Nine, Diamonds; Eight, Diamonds)", &[30,26], &cards!(Nine, Diamonds; Eight, Diamonds)),
    ("cards!(Nine, Diamonds; Eight, Clubs;)", &[30,27], &cards!(Nine, Diamonds; Eight, Clubs;)),
    ("cards!(Nine, Diamonds; Nine, Spades)", &[30,28], &cards!(Nine, Diamonds; Nine, Spades)),
    ("cards!(Nine, Diamonds; Nine, Hearts;)", &[30,29], &cards!(Nine, Diamonds; Nine, Hearts;)),
    ("cards!(Nine, Diamonds; Nine, Diamonds)", &[30,30], &cards!(Nine, Diamonds; Nine, Diamonds)),
    ("cards!(Nine, Diamonds; Nine, Clubs;)", &[30,31], &cards!(Nine, Diamonds; Nine, Clubs;)),
    ("cards!(Nine, Diamonds; Ten, Spades)", &[30,32], &cards!(Nine, Diamonds; Ten, Spades)),
    ("cards!(Nine, Diamonds; Ten, Hearts;)", &[30,33], &cards!(Nine, Diamonds; Ten, Hearts;)),
    ("cards!(Nine, Diamonds; Ten, Diamonds)", &[30,34], &cards!(Nine, Diamonds; Ten, Diamonds)),
    ("cards!(Nine, Diamonds; Ten, Clubs;)", &[30,35], &cards!(Nine, Diamonds; Ten, Clubs;)),
    ("cards!(Nine, Diamonds; Jack, Spades)", &[30,36], &cards!(Nine, Diamonds; Jack, Spades)),
    ("cards!(Nine, Diamonds; Jack, Hearts;)", &[30,37], &cards!(Nine, Diamonds; Jack, Hearts;)),
    ("cards!(Nine, Diamonds; Jack, Diamonds)", &[30,38], &cards!(Nine, Diamonds; Jack, Diamonds)),
    ("cards!(Nine, Diamonds; Jack, Clubs;)", &[30,39], &cards!(Nine, Diamonds; Jack, Clubs;)),
    ("cards!(Nine, Diamonds; Queen, Spades)", &[30,40], &cards!(Nine, Diamonds; Queen, Spades)),
    ("cards!(Nine, Diamonds; Queen, Hearts;)", &[30,41], &cards!(Nine, Diamonds; Queen, Hearts;)),
    ("cards!(Nine, Diamonds; Queen, Diamonds)", &[30,42], &cards!(Nine, Diamonds; Queen, Diamonds)),
    ("cards!(Nine, Diamonds; Queen, Clubs;)", &[30,43], &cards!(Nine, Diamonds; Queen, Clubs;)),
    ("cards!(Nine, Diamonds; King, Spades)", &[30,44], &cards!(Nine, Diamonds; King, Spades)),
    ("cards!(Nine, Diamonds; King, Hearts;)", &[30,45], &cards!(Nine, Diamonds; King, Hearts;)),
    ("cards!(Nine, Diamonds; King, Diamonds)", &[30,46], &cards!(Nine, Diamonds; King, Diamonds)),
    ("cards!(Nine, Diamonds; King, Clubs;)", &[30,47], &cards!(Nine, Diamonds; King, Clubs;)),
    ("cards!(Nine, Diamonds; Ace, Spades)", &[30,48], &cards!(Nine, Diamonds; Ace, Spades)),
    ("cards!(Nine, Diamonds; Ace, Hearts;)", &[30,49], &cards!(Nine, Diamonds; Ace, Hearts;)),
    ("cards!(Nine, Diamonds; Ace, Diamonds)", &[30,50], &cards!(Nine, Diamonds; Ace, Diamonds)),
    ("cards!(Nine, Diamonds; Ace, Clubs;)", &[30,51], &cards!(Nine, Diamonds; Ace, Clubs;)),
    ("cards!(Nine, Clubs; Two, Spades;)", &[31,0], &cards!(Nine, Clubs; Two, Spades;)),
    ("cards!(Nine, Clubs; Two, Hearts)", &[31,1], &cards!(Nine, Clubs; Two, Hearts)),
    ("cards!(Nine, Clubs; Two, Diamonds;)", &[31,2], &cards!(Nine, Clubs; Two, Diamonds;)),
    ("cards!(Nine, Clubs; Two, Clubs)", &[31,3], &cards!(Nine, Clubs; Two, Clubs)),
    ("cards!(Nine, Clubs; Three, Spades;)", &[31,4], &cards!(Nine, Clubs; Three, Spades;)),
    ("cards!(Nine, Clubs; Three, Hearts)", &[31,5], &cards!(Nine, Clubs; Three, Hearts)),
    ("cards!(Nine, Clubs; Three, Diamonds;)", &[31,6], &cards!(Nine, Clubs; Three, Diamonds;)),
    ("cards!(Nine, Clubs; Three, Clubs)", &[31,7], &cards!(Nine, Clubs; Three, Clubs)),
    ("cards!(Nine, Clubs; Four, Spades;)", &[31,8], &cards!(Nine, Clubs; Four, Spades;)),
    ("cards!(Nine, Clubs; Four, Hearts)", &[31,9], &cards!(Nine, Clubs; Four, Hearts)),
    ("cards!(Nine, Clubs; Four, Diamonds;)", &[31,10], &cards!(Nine, Clubs; Four, Diamonds;)),
    ("cards!(Nine, Clubs; Four, Clubs)", &[31,11], &cards!(Nine, Clubs; Four, Clubs)),
    ("cards!(Nine, Clubs; Five, Spades;)", &[31,12], &cards!(Nine, Clubs; Five, Spades;)),
    ("cards!(Nine, Clubs; Five, Hearts)", &[31,13], &cards!(Nine, Clubs; Five, Hearts)),
    ("cards!(Nine, Clubs; Five, Diamonds;)", &[31,14], &cards!(Nine, Clubs; Five, Diamonds;)),
    ("cards!(Nine, Clubs; Five, Clubs)", &[31,15], &cards!(Nine, Clubs; Five, Clubs)),
    ("cards!(Nine, Clubs; Six, Spades;)", &[31,16], &cards!(Nine, Clubs; Six, Spades;)),
    ("cards!(Nine, Clubs; Six, Hearts)", &[31,17], &cards!(Nine, Clubs; Six, Hearts)),
    ("cards!(Nine, Clubs; Six, Diamonds;)", &[31,18], &cards!(Nine, Clubs; Six, Diamonds;)),
    ("cards!(Nine, Clubs; Six, Clubs)", &[31,19], &cards!(Nine, Clubs; Six, Clubs)),
    ("cards!(Nine, Clubs; Seven, Spades;)", &[31,20], &cards!(Nine, Clubs; Seven, Spades;)),
    ("cards!(Nine, Clubs; Seven, Hearts)", &[31,21], &cards!(Nine, Clubs; Seven, Hearts)),
    ("cards!(Nine, Clubs; Seven, Diamonds;)", &[31,22], &cards!(Nine, Clubs; Seven, Diamonds;)),
    ("cards!(Nine, Clubs; Seven, Clubs)", &[31,23], &cards!(Nine, Clubs; Seven, Clubs)),
    ("cards!(Nine, Clubs; Eight, Spades;)", &[31,24], &cards!(Nine, Clubs; Eight, Spades;)),
    ("cards!(Nine, Clubs; Eight, Hearts)", &[31,25], &cards!(Nine, Clubs; Eight, Hearts)),
    ("cards!(Nine, Clubs; Eight, Diamonds;)", &[31,26], &cards!(Nine, Clubs; Eight, Diamonds;)),
    ("cards!(Nine, Clubs; Eight, Clubs)", &[31,27], &cards!(Nine, Clubs; Eight, Clubs)),
    ("cards!(Nine, Clubs; Nine, Spades;)", &[31,28], &cards!(Nine, Clubs; Nine, Spades;)),
    ("cards!(Nine, Clubs; Nine, Hearts)", &[31,29], &cards!(Nine, Clubs; Nine, Hearts)),
    ("cards!(Nine, Clubs; Nine, Diamonds;)", &[31,30], &cards!(Nine, Clubs; Nine, Diamonds;)),
    ("cards!(Nine, Clubs; Nine, Clubs)", &[31,31], &cards!(Nine, Clubs; Nine, Clubs)),
    ("cards!(Nine, Clubs; Ten, Spades;)", &[31,32], &cards!(Nine, Clubs; Ten, Spades;)),
    ("cards!(Nine, Clubs; Ten, Hearts)", &[31,33], &cards!(Nine, Clubs; Ten, Hearts)),
    ("cards!(Nine, Clubs; Ten, Diamonds;)", &[31,34], &cards!(Nine, Clubs; Ten, Diamonds;)),
    ("cards!(Nine, Clubs; Ten, Clubs)", &[31,35], &cards!(Nine, Clubs; Ten, Clubs)),
    ("cards!(Nine, Clubs; Jack, Spades;)", &[31,36], &cards!(Nine, Clubs; Jack, Spades;)),
    ("cards!(Nine, Clubs; Jack, Hearts)", &[31,37], &cards!(Nine, Clubs; Jack, Hearts)),
    ("cards!(Nine, Clubs; Jack, Diamonds;)", &[31,38], &cards!(Nine, Clubs; Jack, Diamonds;)),
    ("cards!(Nine, Clubs; Jack, Clubs)", &[31,39], &cards!(Nine, Clubs; Jack, Clubs)),
    ("cards!(Nine, Clubs; Queen, Spades;)", &[31,40], &cards!(Nine, Clubs; Queen, Spades;)),
    ("cards!(Nine, Clubs; Queen, Hearts)", &[31,41], &cards!(Nine, Clubs; Queen, Hearts)),
    ("cards!(Nine, Clubs; Queen, Diamonds;)", &[31,42], &cards!(Nine, Clubs; Queen, Diamonds;)),
    ("cards!(Nine, Clubs; Queen, Clubs)", &[31,43], &cards!(Nine, Clubs; Queen, Clubs)),
    ("cards!(Nine, Clubs; King, Spades;)", &[31,44], &cards!(Nine, Clubs; King, Spades;)),
    ("cards!(Nine, Clubs; King, Hearts)", &[31,45], &cards!(Nine, Clubs; King, Hearts)),
    ("cards!(Nine, Clubs; King, Diamonds;)", &[31,46], &cards!(Nine, Clubs; King, Diamonds;)),
    ("cards!(Nine, Clubs; King, Clubs)", &[31,47], &cards!(Nine, Clubs; King, Clubs)),
    ("cards!(Nine, Clubs; Ace, Spades;)", &[31,48], &cards!(Nine, Clubs; Ace, Spades;)),
    ("cards!(Nine, Clubs; Ace, Hearts)", &[31,49], &cards!(Nine, Clubs; Ace, Hearts)),
    ("cards!(Nine, Clubs; Ace, Diamonds;)", &[31,50], &cards!(Nine, Clubs; Ace, Diamonds;)),
    ("cards!(Nine, Clubs; Ace, Clubs)", &[31,51], &cards!(Nine, Clubs; Ace, Clubs)),
    ("cards!(Ten, Spades; Two, Spades)", &[32,0], &cards!(Ten, Spades; Two, Spades)),
    ("cards!(Ten, Spades; Two, Hearts;)", &[32,1], &cards!(Ten, Spades; Two, Hearts;)),
    ("cards!(Ten, Spades; Two, Diamonds)", &[32,2], &cards!(Ten, Spades; Two, Diamonds)),
    ("cards!(Ten, Spades; Two, Clubs;)", &[32,3], &cards!(Ten, Spades; Two, Clubs;)),
    ("cards!(Ten, Spades; Three, Spades)", &[32,4], &cards!(Ten, Spades; Three, Spades)),
    ("cards!(Ten, Spades; Three, Hearts;)", &[32,5], &cards!(Ten, Spades; Three, Hearts;)),
    ("cards!(Ten, Spades; Three, Diamonds)", &[32,6], &cards!(Ten, Spades; Three, Diamonds)),
    ("cards!(Ten, Spades; Three, Clubs;)", &[32,7], &cards!(Ten, Spades; Three, Clubs;)),
    ("cards!(Ten, Spades; Four, Spades)", &[32,8], &cards!(Ten, Spades; Four, Spades)),
    ("cards!(Ten, Spades; Four, Hearts;)", &[32,9], &cards!(Ten, Spades; Four, Hearts;)),
    ("cards!(Ten, Spades; Four, Diamonds)", &[32,10], &cards!(Ten, Spades; Four, Diamonds)),
    ("cards!(Ten, Spades; Four, Clubs;)", &[32,11], &cards!(Ten, Spades; Four, Clubs;)),
    ("cards!(Ten, Spades; Five, Spades)", &[32,12], &cards!(Ten, Spades; Five, Spades)),
    ("cards!(Ten, Spades; Five, Hearts;)", &[32,13], &cards!(Ten, Spades; Five, Hearts;)),
    ("cards!(Ten, Spades; Five, Diamonds)", &[32,14], &cards!(Ten, Spades; Five, Diamonds)),
    ("cards!(Ten, Spades; Five, Clubs;)", &[32,15], &cards!(Ten, Spades; Five, Clubs;)),
    ("cards!(Ten, Spades; Six, Spades)", &[32,16], &cards!(Ten, Spades; Six, Spades)),
    ("cards!(Ten, Spades; Six, Hearts;)", &[32,17], &cards!(Ten, Spades; Six, Hearts;)),
    ("cards!(Ten, Spades; Six, Diamonds)", &[32,18], &cards!(Ten, Spades; Six, Diamonds)),
    ("cards!(Ten, Spades; Six, Clubs;)", &[32,19], &cards!(Ten, Spades; Six, Clubs;)),
    ("cards!(Ten, Spades; Seven, Spades)", &[32,20], &cards!(Ten, Spades; Seven, Spades)),
    ("cards!(Ten, Spades; Seven, Hearts;)", &[32,21], &cards!(Ten, Spades; Seven, Hearts;)),
    ("cards!(Ten, Spades; Seven, Diamonds)", &[32,22], &cards!(Ten, Spades; Seven, Diamonds)),
    ("cards!(Ten, Spades; Seven, Clubs;)", &[32,23], &cards!(Ten, Spades; Seven, Clubs;)),
    ("cards!(Ten, Spades; Eight, Spades)", &[32,24], &cards!(Ten, Spades; Eight, Spades)),
    ("cards!(Ten, Spades; Eight, Hearts;)", &[32,25], &cards!(Ten, Spades; Eight, Hearts;)),
    ("cards!(Ten, Spades; Eight, Diamonds)", &[32,26], &cards!(Ten, Spades; Eight, Diamonds)),
    ("cards!(Ten, Spades; Eight, Clubs;)", &[32,27], &cards!(Ten, Spades; Eight, Clubs;)),
    ("cards!(Ten, Spades; Nine, Spades)", &[32,28], &cards!(Ten, Spades; Nine, Spades)),
    ("cards!(Ten, Spades; Nine, Hearts;)", &[32,29], &cards!(Ten, Spades; Nine, Hearts;)),
    ("cards!(Ten, Spades; Nine, Diamonds)", &[32,30], &cards!(Ten, Spades; Nine, Diamonds)),
    ("cards!(Ten, Spades; Nine, Clubs;)", &[32,31], &cards!(Ten, Spades; Nine, Clubs;)),
    ("cards!(Ten, Spades; Ten, Spades)", &[32,32], &cards!(Ten, Spades; Ten, Spades)),
    ("cards!(Ten, Spades; Ten, Hearts;)", &[32,33], &cards!(Ten, Spades; Ten, Hearts;)),
    ("cards!(Ten, Spades; Ten, Diamonds)", &[32,34], &cards!(Ten, Spades; Ten, Diamonds)),
    ("cards!(Ten, Spades; Ten, Clubs;)", &[32,35], &cards!(Ten, Spades; Ten, Clubs;)),
    ("cards!(Ten, Spades; Jack, Spades)", &[32,36], &cards!(Ten, Spades; Jack, Spades)),
    ("cards!(Ten, Spades; Jack, Hearts;)", &[32,37], &cards!(Ten, Spades; Jack, Hearts;)),
    ("cards!(Ten, Spades; Jack, Diamonds)", &[32,38], &cards!(Ten, Spades; Jack, Diamonds)),
    ("cards!(Ten, Spades; Jack, Clubs;)", &[32,39], &cards!(Ten, Spades; Jack, Clubs;)),
    ("cards!(Ten, Spades; Queen, Spades)", &[32,40], &cards!(Ten, Spades; Queen, Spades)),
    ("cards!(Ten, Spades; Queen, Hearts;)", &[32,41], &cards!(Ten, Spades; Queen, Hearts;)),
    ("cards!(Ten, Spades; Queen, Diamonds)", &[32,42], &cards!(Ten, Spades; Queen, Diamonds)),
    ("cards!(Ten, Spades; Queen, Clubs;)", &[32,43], &cards!(Ten, Spades; Queen, Clubs;)),
    ("cards!(Ten, Spades; King, Spades)", &[32,44], &cards!(Ten, Spades; King, Spades)),
    ("cards!(Ten, Spades; King, Hearts;)", &[32,45], &cards!(Ten, Spades; King, Hearts;)),
    ("cards!(Ten, Spades; King, Diamonds)", &[32,46], &cards!(Ten, Spades; King, Diamonds)),
    ("cards!(Ten, Spades; King, Clubs;)", &[32,47], &cards!(Ten, Spades; King, Clubs;)),
    ("cards!(Ten, Spades; Ace, Spades)", &[32,48], &cards!(Ten, Spades; Ace, Spades)),
    ("cards!(Ten, Spades; Ace, Hearts;)", &[32,49], &cards!(Ten, Spades; Ace, Hearts;)),
    ("cards!(Ten, Spades; Ace, Diamonds)", &[32,50], &cards!(Ten, Spades; Ace, Diamonds)),
    ("cards!(Ten, Spades; Ace, Clubs;)", &[32,51], &cards!(Ten, Spades; Ace, Clubs;)),
    ("cards!(Ten, Hearts; Two, Spades;)", &[33,0], &cards!(Ten, Hearts; Two, Spades;)),
    ("cards!(Ten, Hearts; Two, Hearts)", &[33,1], &cards!(Ten, Hearts; Two, Hearts)),
    ("cards!(Ten, Hearts; Two, Diamonds;)", &[33,2], &cards!(Ten, Hearts; Two, Diamonds;)),
    ("cards!(Ten, Hearts; Two, Clubs)", &[33,3], &cards!(Ten, Hearts; Two, Clubs)),
    ("cards!(Ten, Hearts; Three, Spades;)", &[33,4], &cards!(Ten, Hearts; Three, Spades;)),
    ("cards!(Ten, Hearts; Three, Hearts)", &[33,5], &cards!(Ten, Hearts; Three, Hearts)),
    ("cards!(Ten, Hearts; Three, Diamonds;)", &[33,6], &cards!(Ten, Hearts; Three, Diamonds;)),
    ("cards!(Ten, Hearts; Three, Clubs)", &[33,7], &cards!(Ten, Hearts; Three, Clubs)),
    ("cards!(Ten, Hearts; Four, Spades;)", &[33,8], &cards!(Ten, Hearts; Four, Spades;)),
    ("cards!(Ten, Hearts; Four, Hearts)", &[33,9], &cards!(Ten, Hearts; Four, Hearts)),
    ("cards!(Ten, Hearts; Four, Diamonds;)", &[33,10], &cards!(Ten, Hearts; Four, Diamonds;)),
    ("cards!(Ten, Hearts; Four, Clubs)", &[33,11], &cards!(Ten, Hearts; Four, Clubs)),
    ("cards!(Ten, Hearts; Five, Spades;)", &[33,12], &cards!(Ten, Hearts; Five, Spades;)),
    ("cards!(Ten, Hearts; Five, Hearts)", &[33,13], &cards!(Ten, Hearts; Five, Hearts)),
    ("cards!(Ten, Hearts; Five, Diamonds;)", &[33,14], &cards!(Ten, Hearts; Five, Diamonds;)),
    ("cards!(Ten, Hearts; Five, Clubs)", &[33,15], &cards!(Ten, Hearts; Five, Clubs)),
    ("cards!(Ten, Hearts; Six, Spades;)", &[33,16], &cards!(Ten, Hearts; Six, Spades;)),
    ("cards!(Ten, Hearts; Six, Hearts)", &[33,17], &cards!(Ten, Hearts; Six, Hearts)),
    ("cards!(Ten, Hearts; Six, Diamonds;)", &[33,18], &cards!(Ten, Hearts; Six, Diamonds;)),
    ("cards!(Ten, Hearts; Six, Clubs)", &[33,19], &cards!(Ten, Hearts; Six, Clubs)),
    ("cards!(Ten, Hearts; Seven, Spades;)", &[33,20], &cards!(Ten, Hearts; Seven, Spades;)),
    ("cards!(Ten, Hearts; Seven, Hearts)", &[33,21], &cards!(Ten, Hearts; Seven, Hearts)),
    ("cards!(Ten, Hearts; Seven, Diamonds;)", &[33,22], &cards!(Ten, Hearts; Seven, Diamonds;)),
    ("cards!(Ten, Hearts; Seven, Clubs)", &[33,23], &cards!(Ten, Hearts; Seven, Clubs)),
    ("cards!(Ten, Hearts; Eight, Spades;)", &[33,24], &cards!(Ten, Hearts; Eight, Spades;)),
    ("cards!(Ten, Hearts; Eight, Hearts)", &[33,25], &cards!(Ten, Hearts; Eight, Hearts)),
    ("cards!(Ten, Hearts; Eight, Diamonds;)", &[33,26], &cards!(Ten, Hearts; Eight, Diamonds;)),
    ("cards!(Ten, Hearts; Eight, Clubs)", &[33,27], &cards!(Ten, Hearts; Eight, Clubs)),
    ("cards!(Ten, Hearts; Nine, Spades;)", &[33,28], &cards!(Ten, Hearts; Nine, Spades;)),
    ("cards!(Ten, Hearts; Nine, Hearts)", &[33,29], &cards!(Ten, Hearts; Nine, Hearts)),
    ("cards!(Ten, Hearts; Nine, Diamonds;)", &[33,30], &cards!(Ten, Hearts; Nine, Diamonds;)),
    ("cards!(Ten, Hearts; Nine, Clubs)", &[33,31], &cards!(Ten, Hearts; Nine, Clubs)),
    ("cards!(Ten, Hearts; Ten, Spades;)", &[33,32], &cards!(Ten, Hearts; Ten, Spades;)),
    ("cards!(Ten, Hearts; Ten, Hearts)", &[33,33], &cards!(Ten, Hearts; Ten, Hearts)),
    ("cards!(Ten, Hearts; Ten, Diamonds;)", &[33,34], &cards!(Ten, Hearts; Ten, Diamonds;)),
    ("cards!(Ten, Hearts; Ten, Clubs)", &[33,35], &cards!(Ten, Hearts; Ten, Clubs)),
    ("cards!(Ten, Hearts; Jack, Spades;)", &[33,36], &cards!(Ten, Hearts; Jack, Spades;)),
    ("cards!(Ten, Hearts; Jack, Hearts)", &[33,37], &cards!(Ten, Hearts; Jack, Hearts)),
    ("cards!(Ten, Hearts; Jack, Diamonds;)", &[33,38], &cards!(Ten, Hearts; Jack, Diamonds;)),
    ("cards!(Ten, Hearts; Jack, Clubs)", &[33,39], &cards!(Ten, Hearts; Jack, Clubs)),
    ("cards!(Ten, Hearts; Queen, Spades;)", &[33,40], &cards!(Ten, Hearts; Queen, Spades;)),
    ("cards!(Ten, Hearts; Queen, Hearts)", &[33,41], &cards!(Ten, Hearts; Queen, Hearts)),
    ("cards!(Ten, Hearts; Queen, Diamonds;)", &[33,42], &cards!(Ten, Hearts; Queen, Diamonds;)),
    ("cards!(Ten, Hearts; Queen, Clubs)", &[33,43], &cards!(Ten, Hearts; Queen, Clubs)),
    ("cards!(Ten, Hearts; King, Spades;)", &[33,44], &cards!(Ten, Hearts; King, Spades;)),
    ("cards!(Ten, Hearts; King, Hearts)", &[33,45], &cards!(Ten, Hearts; King, Hearts)),
    ("cards!(Ten, Hearts; King, Diamonds;)", &[33,46], &cards!(Ten, Hearts; King, Diamonds;)),
    ("cards!(Ten, Hearts; King, Clubs)", &[33,47], &cards!(Ten, Hearts; King, Clubs)),
    ("cards!(Ten, Hearts; Ace, Spades;)", &[33,48], &cards!(Ten, Hearts; Ace, Spades;)),
    ("cards!(Ten, Hearts; Ace, Hearts)", &[33,49], &cards!(Ten, Hearts; Ace, Hearts)),
    ("cards!(Ten, Hearts; Ace, Diamonds;)", &[33,50], &cards!(Ten, Hearts; Ace, Diamonds;)),
    ("cards!(Ten, Hearts; Ace, Clubs)", &[33,51], &cards!(Ten, Hearts; Ace, Clubs)),
    ("cards!(Ten, Diamonds; Two, Spades)", &[34,0], &cards!(Ten, Diamonds; Two, Spades)),
    ("cards!(Ten, Diamonds; Two, Hearts;)", &[34,1], &cards!(Ten, Diamonds; Two, Hearts;)),
    ("cards!(Ten, Diamonds; Two, Diamonds)", &[34,2], &cards!(Ten, Diamonds; Two, Diamonds)),
    ("cards!(Ten, Diamonds; Two, Clubs;)", &[34,3], &cards!(Ten, Diamonds; Two, Clubs;)),
    ("cards!(Ten, Diamonds; Three, Spades)", &[34,4], &cards!(Ten, Diamonds; Three, Spades)),
    ("cards!(Ten, Diamonds; Three, Hearts;)", &[34,5], &cards!(Ten, Diamonds; Three, Hearts;)),
    ("cards!(Ten, Diamonds; Three, Diamonds)", &[34,6], &cards!(Ten, Diamonds; Three, Diamonds)),
    ("cards!(Ten, Diamonds; Three, Clubs;)", &[34,7], &cards!(Ten, Diamonds; Three, Clubs;)),
    ("cards!(Ten, Diamonds; Four, Spades)", &[34,8], &cards!(Ten, Diamonds; Four, Spades)),
    ("cards!(Ten, Diamonds; Four, Hearts;)", &[34,9], &cards!(Ten, Diamonds; Four, Hearts;)),
    ("cards!(Ten, Diamonds; Four, Diamonds)", &[34,10], &cards!(Ten, Diamonds; Four, Diamonds)),
    ("cards!(Ten, Diamonds; Four, Clubs;)", &[34,11], &cards!(Ten, Diamonds; Four, Clubs;)),
    ("cards!(Ten, Diamonds; Five, Spades)", &[34,12], &cards!(Ten, Diamonds; Five, Spades)),
    ("cards!(Ten, Diamonds; Five, Hearts;)", &[34,13], &cards!(Ten, Diamonds; Five, Hearts;)),
    ("cards!(Ten, Diamonds; Five, Diamonds)", &[34,14], &cards!(Ten, Diamonds; Five, Diamonds)),
    ("cards!(Ten, Diamonds; Five, Clubs;)", &[34,15], &cards!(Ten, Diamonds; Five, Clubs;)),
    ("cards!(Ten, Diamonds; Six, Spades)", &[34,16], &cards!(Ten, Diamonds; Six, Spades)),
    ("cards!(Ten, Diamonds; Six, Hearts;)", &[34,17], &cards!(Ten, Diamonds; Six, Hearts;)),
    ("cards!(Ten, Diamonds; Six, Diamonds)", &[34,18], &cards!(Ten, Diamonds; Six, Diamonds)),
    ("cards!(Ten, Diamonds; Six, Clubs;)", &[34,19], &cards!(Ten, Diamonds; Six, Clubs;)),
    ("cards!(Ten, Diamonds; Seven, Spades)", &[34,20], &cards!(Ten, Diamonds; Seven, Spades)),
    ("cards!(Ten, Diamonds; Seven, Hearts;)", &[34,21], &cards!(Ten, Diamonds; Seven, Hearts;)),
    ("cards!(Ten, Diamonds; Seven, Diamonds)", &[34,22], &cards!(Ten, Diamonds; Seven, Diamonds)),
    ("cards!(Ten, Diamonds; Seven, Clubs;)", &[34,23], &cards!(Ten, Diamonds; Seven, Clubs;)),
    ("cards!(Ten, Diamonds; Eight, Spades)", &[34,24], &cards!(Ten, Diamonds; Eight, Spades)),
    ("cards!(Ten, Diamonds; Eight, Hearts;)", &[34,25], &cards!(Ten, Diamonds; Eight, Hearts;)),
    ("cards!(Ten, Diamonds; Eight, Diamonds)", &[34,26], &cards!(Ten, Diamonds; Eight, Diamonds)),
    ("cards!(Ten, Diamonds; Eight, Clubs;)", &[34,27], &cards!(Ten, Diamonds; Eight, Clubs;)),
    ("cards!(Ten, Diamonds; Nine, Spades)", &[34,28], &cards!(Ten, Diamonds; Nine, Spades)),
    ("cards!(Ten, Diamonds; Nine, Hearts;)", &[34,29], &cards!(Ten, Diamonds; Nine, Hearts;)),
    ("cards!(Ten, Diamonds; Nine, Diamonds)", &[34,30], &cards!(Ten, Diamonds; Nine, Diamonds)),
    ("cards!(Ten, Diamonds; Nine, Clubs;)", &[34,31], &cards!(Ten, Diamonds; Nine, Clubs;)),
    ("cards!(Ten, Diamonds; Ten, Spades)", &[34,32], &cards!(Ten, Diamonds; Ten, Spades)),
    ("cards!(Ten, Diamonds; Ten, Hearts;)", &[34,33], &cards!(Ten, Diamonds; Ten, Hearts;)),
    ("cards!(Ten, Diamonds; Ten, Diamonds)", &[34,34], &cards!(Ten, Diamonds; Ten, Diamonds)),
    ("cards!(Ten, Diamonds; Ten, Clubs;)", &[34,35], &cards!(Ten, Diamonds; Ten, Clubs;)),
    ("cards!(Ten, Diamonds; Jack, Spades)", &[34,36], &cards!(Ten, Diamonds; Jack, Spades)),
    ("cards!(Ten, Diamonds; Jack, Hearts;)", &[34,37], &cards!(Ten, Diamonds; Jack, Hearts;)),
    ("cards!(Ten, Diamonds; Jack, Diamonds)", &[34,38], &cards!(Ten, Diamonds; Jack, Diamonds)),
    ("cards!(Ten, Diamonds; Jack, Clubs;)", &[34,39], &cards!(Ten, Diamonds; Jack, Clubs;)),
    ("cards!(Ten, Diamonds; Queen, Spades)", &[34,40], &cards!(Ten, Diamonds; Queen, Spades)),
    ("cards!(Ten, Diamonds; Queen, Hearts;)", &[34,41], &cards!(Ten, Diamonds; Queen, Hearts;)),
    ("cards!(Ten, Diamonds; Queen, Diamonds)", &[34,42], &cards!(Ten, Diamonds; Queen, Diamonds)),
    ("cards!(Ten, Diamonds; Queen, Clubs;)", &[34,43], &cards!(Ten, Diamonds; Queen, Clubs;)),
    ("cards!(Ten, Diamonds; King, Spades)", &[34,44], &cards!(Ten, Diamonds; King, Spades)),
    ("cards!(Ten, Diamonds; King, Hearts;)", &[34,45], &cards!(Ten, Diamonds; King, Hearts;)),
    ("cards!(Ten, Diamonds; King, Diamonds)", &[34,46], &cards!(Ten, Diamonds; King, Diamonds)),
    ("cards!(Ten, Diamonds; King, Clubs;)", &[34,47], &cards!(Ten, Diamonds; King, Clubs;)),
    ("cards!(Ten, Diamonds; Ace, Spades)", &[34,48], &cards!(Ten, Diamonds; Ace, Spades)),
    ("cards!(Ten, Diamonds; Ace, Hearts;)", &[34,49], &cards!(Ten, Diamonds; Ace, Hearts;)),
    ("cards!(Ten, Diamonds; Ace, Diamonds)", &[34,50], &cards!(Ten, Diamonds; Ace, Diamonds)),
    ("cards!(Ten, Diamonds; Ace, Clubs;)", &[34,51], &cards!(Ten, Diamonds; Ace, Clubs;)),
    ("cards!(Ten, Clubs; Two, Spades;)", &[35,0], &cards!(Ten, Clubs; Two, Spades;)),
    ("cards!(Ten, Clubs; Two, Hearts)", &[35,1], &cards!(Ten, Clubs; Two, Hearts)),
    ("cards!(Ten, Clubs; Two, Diamonds;)", &[35,2], &cards!(Ten, Clubs; Two, Diamonds;)),
    ("cards!(Ten, Clubs; Two, Clubs)", &[35,3], &cards!(Ten, Clubs; Two, Clubs)),
    ("cards!(Ten, Clubs; Three, Spades;)", &[35,4], &cards!(Ten, Clubs; Three, Spades;)),
    ("cards!(Ten, Clubs; Three, Hearts)", &[35,5], &cards!(Ten, Clubs; Three, Hearts)),
    ("cards!(Ten, Clubs; Three, Diamonds;)", &[35,6], &cards!(Ten, Clubs; Three, Diamonds;)),
    ("cards!(Ten, Clubs; Three, Clubs)", &[35,7], &cards!(Ten, Clubs; Three, Clubs)),
    ("cards!(Ten, Clubs; Four, Spades;)", &[35,8], &cards!(Ten, Clubs; Four, Spades;)),
    ("cards!(Ten, Clubs; Four, Hearts)", &[35,9], &cards!(Ten, Clubs; Four, Hearts)),
    ("cards!(Ten, Clubs; Four, Diamonds;)", &[35,10], &cards!(Ten, Clubs; Four, Diamonds;)),
    ("cards!(Ten, Clubs; Four, Clubs)", &[35,11], &cards!(Ten, Clubs; Four, Clubs)),
    ("cards!(Ten, Clubs; Five, Spades;)", &[35,12], &cards!(Ten, Clubs; Five, Spades;)),
    ("cards!(Ten, Clubs; Five, Hearts)", &[35,13], &cards!(Ten, Clubs; Five, Hearts)),
    ("cards!(Ten, Clubs; Five, Diamonds;)", &[35,14], &cards!(Ten, Clubs; Five, Diamonds;)),
    ("cards!(Ten, Clubs; Five, Clubs)", &[35,15], &cards!(Ten, Clubs; Five, Clubs)),
    ("cards!(Ten, Clubs; Six, Spades;)", &[35,16], &cards!(Ten, Clubs; Six, Spades;)),
    ("cards!(Ten, Clubs; Six, Hearts)", &[35,17], &cards!(Ten, Clubs; Six, Hearts)),
    ("cards!(Ten, Clubs; Six, Diamonds;)", &[35,18], &cards!(Ten, Clubs; Six, Diamonds;)),
    ("cards!(Ten, Clubs; Six, Clubs)", &[35,19], &cards!(Ten, Clubs; Six, Clubs)),
    ("cards!(Ten, Clubs; Seven, Spades;)", &[35,20], &cards!(Ten, Clubs; Seven, Spades;)),
    ("cards!(Ten, Clubs; Seven, Hearts)", &[35,21], &cards!(Ten, Clubs; Seven, Hearts)),
    ("cards!(Ten, Clubs; Seven, Diamonds;)", &[35,22], &cards!(Ten, Clubs; Seven, Diamonds;)),
    ("cards!(Ten, Clubs; Seven, Clubs)", &[35,23], &cards!(Ten, Clubs; Seven, Clubs)),
    ("cards!(Ten, Clubs; Eight, Spades;)", &[35,24], &cards!(Ten, Clubs; Eight, Spades;)),
    ("cards!(Ten, Clubs; Eight, Hearts)", &[35,25], &cards!(Ten, Clubs; Eight, Hearts)),
    ("cards!(Ten, Clubs; Eight, Diamonds;)", &[35,26], &cards!(Ten, Clubs; Eight, Diamonds;)),
    ("cards!(Ten, Clubs; Eight, Clubs)", &[35,27], &cards!(Ten, Clubs; Eight, Clubs)),
    ("cards!(Ten, Clubs; Nine, Spades;)", &[35,28], &cards!(Ten, Clubs; Nine, Spades;)),
    ("cards!(Ten, Clubs; Nine, Hearts)", &[35,29], &cards!(Ten, Clubs; Nine, Hearts)),
    ("cards!(Ten, Clubs; Nine, Diamonds;)", &[35,30], &cards!(Ten, Clubs; Nine, Diamonds;)),
    ("cards!(Ten, Clubs; Nine, Clubs)", &[35,31], &cards!(Ten, Clubs; Nine, Clubs)),
    ("cards!(Ten, Clubs; Ten, Spades;)", &[35,32], &cards!(Ten, Clubs; Ten, Spades;)),
    ("cards!(Ten, Clubs; Ten, Hearts)", &[35,33], &cards!(Ten, Clubs; Ten, Hearts)),
    ("cards!(Ten, Clubs; Ten, Diamonds;)", &[35,34], &cards!(Ten, Clubs; Ten, Diamonds;)),
    ("cards!(Ten, Clubs; Ten, Clubs)", &[35,35], &cards!(Ten, Clubs; Ten, Clubs)),
    ("cards!(Ten, Clubs; Jack, Spades;)", &[35,36], &cards!(Ten, Clubs; Jack, Spades;)),
    ("cards!(Ten, Clubs; Jack, Hearts)", &[35,37], &cards!(Ten, Clubs; Jack, Hearts)),
    ("cards!(Ten, Clubs; Jack, Diamonds;)", &[35,38], &cards!(Ten, Clubs; Jack, Diamonds;)),
    ("cards!(Ten, Clubs; Jack, Clubs)", &[35,39], &cards!(Ten, Clubs; Jack, Clubs)),
    ("cards!(Ten, Clubs; Queen, Spades;)", &[35,40], &cards!(Ten, Clubs; Queen, Spades;)),
    ("cards!(Ten, Clubs; Queen, Hearts)", &[35,41], &cards!(Ten, Clubs; Queen, Hearts)),
    ("cards!(Ten, Clubs; Queen, Diamonds;)", &[35,42], &cards!(Ten, Clubs; Queen, Diamonds;)),
    ("cards!(Ten, Clubs; Queen, Clubs)", &[35,43], &cards!(Ten, Clubs; Queen, Clubs)),
    ("cards!(Ten, Clubs; King, Spades;)", &[35,44], &cards!(Ten, Clubs; King, Spades;)),
    ("cards!(Ten, Clubs; King, Hearts)", &[35,45], &cards!(Ten, Clubs; King, Hearts)),
    ("cards!(Ten, Clubs; King, Diamonds;)", &[35,46], &cards!(Ten, Clubs; King, Diamonds;)),
    ("cards!(Ten, Clubs; King, Clubs)", &[35,47], &cards!(Ten, Clubs; King, Clubs)),
    ("cards!(Ten, Clubs; Ace, Spades;)", &[35,48], &cards!(Ten, Clubs; Ace, Spades;)),
    ("cards!(Ten, Clubs; Ace, Hearts)", &[35,49], &cards!(Ten, Clubs; Ace, Hearts)),
    ("cards!(Ten, Clubs; Ace, Diamonds;)", &[35,50], &cards!(Ten, Clubs; Ace, Diamonds;)),
    ("cards!(Ten, Clubs; Ace, Clubs)", &[35,51], &cards!(Ten, Clubs; Ace, Clubs)),
    ("cards!(Jack, Spades; Two, Spades)", &[36,0], &cards!(Jack, Spades; Two, Spades)),
    ("cards!(Jack, Spades; Two, Hearts;)", &[36,1], &cards!(Jack, Spades; Two, Hearts;)),
    ("cards!(Jack, Spades; Two, Diamonds)", &[36,2], &cards!(Jack, Spades; Two, Diamonds)),
    ("cards!(Jack, Spades; Two, Clubs;)", &[36,3], &cards!(Jack, Spades; Two, Clubs;)),
    ("cards!(Jack, Spades; Three, Spades)", &[36,4], &cards!(Jack, Spades; Three, Spades)),
    ("cards!(Jack, Spades; Three, Hearts;)", &[36,5], &cards!(Jack, Spades; Three, Hearts;)),
    ("cards!(Jack, Spades; Three, Diamonds)", &[36,6], &cards!(Jack, Spades; Three, Diamonds)),
    ("cards!(Jack, Spades; Three, Clubs;)", &[36,7], &cards!(Jack, Spades; Three, Clubs;)),
    ("cards!(Jack, Spades; Four, Spades)", &[36,8], &cards!(Jack, Spades; Four, Spades)),
    ("cards!(Jack, Spades; Four, Hearts;)", &[36,9], &cards!(Jack, Spades; Four, Hearts;)),
    ("cards!(Jack, Spades; Four, Diamonds)", &[36,10], &cards!(Jack, Spades; Four, Diamonds)),
    ("cards!(Jack, Spades; Four, Clubs;)", &[36,11], &cards!(Jack, Spades; Four, Clubs;)),
    ("cards!(Jack, Spades; Five, Spades)", &[36,12], &cards!(Jack, Spades; Five, Spades)),
    ("cards!(Jack, Spades; Five, Hearts;)", &[36,13], &cards!(Jack, Spades; Five, Hearts;)),
    ("cards!(Jack, Spades; Five, Diamonds)", &[36,14], &cards!(Jack, Spades; Five, Diamonds)),
    ("cards!(Jack, Spades; Five, Clubs;)", &[36,15], &cards!(Jack, Spades; Five, Clubs;)),
    ("cards!(Jack, Spades; Six, Spades)", &[36,16], &cards!(Jack, Spades; Six, Spades)),
    ("cards!(Jack, Spades; Six, Hearts;)", &[36,17], &cards!(Jack, Spades; Six, Hearts;)),
    ("cards!(Jack, Spades; Six, Diamonds)", &[36,18], &cards!(Jack, Spades; Six, Diamonds)),
    ("cards!(Jack, Spades; Six, Clubs;)", &[36,19], &cards!(Jack, Spades; Six, Clubs;)),
    ("cards!(Jack, Spades; Seven, Spades)", &[36,20], &cards!(Jack, Spades; Seven, Spades)),
    ("cards!(Jack, Spades; Seven, Hearts;)", &[36,21], &cards!(Jack, Spades; Seven, Hearts;)),
    ("cards!(Jack, Spades; Seven, Diamonds)", &[36,22], &cards!(Jack, Spades; Seven, Diamonds)),
    ("cards!(Jack, Spades; Seven, Clubs;)", &[36,23], &cards!(Jack, Spades; Seven, Clubs;)),
    ("cards!(Jack, Spades; Eight, Spades)", &[36,24], &cards!(Jack, Spades; Eight, Spades)),
    ("cards!(Jack, Spades; Eight, Hearts;)", &[36,25], &cards!(Jack, Spades; Eight, Hearts;)),
    ("cards!(Jack, Spades; Eight, Diamonds)", &[36,26], &cards!(Jack, Spades; Eight, Diamonds)),
    ("cards!(Jack, Spades; Eight, Clubs;)", &[36,27], &cards!(Jack, Spades; Eight, Clubs;)),
    ("cards!(Jack, Spades; Nine, Spades)", &[36,28], &cards!(Jack, Spades; Nine, Spades)),
    ("cards!(Jack, Spades; Nine, Hearts;)", &[36,29], &cards!(Jack, Spades; Nine, Hearts;)),
    ("cards!(Jack, Spades; Nine, Diamonds)", &[36,30], &cards!(Jack, Spades; Nine, Diamonds)),
    ("cards!(Jack, Spades; Nine, Clubs;)", &[36,31], &cards!(Jack, Spades; Nine, Clubs;)),
    ("cards!(Jack, Spades; Ten, Spades)", &[36,32], &cards!(Jack, Spades; Ten, Spades)),
    ("cards!(Jack, Spades; Ten, Hearts;)", &[36,33], &cards!(Jack, Spades; Ten, Hearts;)),
    ("cards!(Jack, Spades; Ten, Diamonds)", &[36,34], &cards!(Jack, Spades; Ten, Diamonds)),
    ("cards!(Jack, Spades; Ten, Clubs;)", &[36,35], &cards!(Jack, Spades; Ten, Clubs;)),
    ("cards!(Jack, Spades; Jack, Spades)", &[36,36], &cards!(Jack, Spades; Jack, Spades)),
    ("cards!(Jack, Spades; Jack, Hearts;)", &[36,37], &cards!(Jack, Spades; Jack, Hearts;)),
    ("cards!(Jack, Spades; Jack, Diamonds)", &[36,38], &cards!(Jack, Spades; Jack, Diamonds)),
    ("cards!(Jack, Spades; Jack, Clubs;)", &[36,39], &cards!(Jack, Spades; Jack, Clubs;)),
    ("cards!(Jack, Spades; Queen, Spades)", &[36,40], &cards!(Jack, Spades; Queen, Spades)),
    ("cards!(Jack, Spades; Queen, Hearts;)", &[36,41], &cards!(Jack, Spades; Queen, Hearts;)),
    ("cards!(Jack, Spades; Queen, Diamonds)", &[36,42], &cards!(Jack, Spades; Queen, Diamonds)),
    ("cards!(Jack, Spades; Queen, Clubs;)", &[36,43], &cards!(Jack, Spades; Queen, Clubs;)),
    ("cards!(Jack, Spades; King, Spades)", &[36,44], &cards!(Jack, Spades; King, Spades)),
    ("cards!(Jack, Spades; King, Hearts;)", &[36,45], &cards!(Jack, Spades; King, Hearts;)),
    ("cards!(Jack, Spades; King, Diamonds)", &[36,46], &cards!(Jack, Spades; King, Diamonds)),
    ("cards!(Jack, Spades; King, Clubs;)", &[36,47], &cards!(Jack, Spades; King, Clubs;)),
    ("cards!(Jack, Spades; Ace, Spades)", &[36,48], &cards!(Jack, Spades; Ace, Spades)),
    ("cards!(Jack, Spades; Ace, Hearts;)", &[36,49], &cards!(Jack, Spades; Ace, Hearts;)),
    ("cards!(Jack, Spades; Ace, Diamonds)", &[36,50], &cards!(Jack, Spades; Ace, Diamonds)),
    ("cards!(Jack, Spades; Ace, Clubs;)", &[36,51], &cards!(Jack, Spades; Ace, Clubs;)),
    ("cards!(Jack, Hearts; Two, Spades;)", &[37,0], &cards!(Jack, Hearts; Two, Spades;)),
    ("cards!(Jack, Hearts; Two, Hearts)", &[37,1], &cards!(Jack, Hearts; Two, Hearts)),
    ("cards!(Jack, Hearts; Two, Diamonds;)", &[37,2], &cards!(Jack, Hearts; Two, Diamonds;)),
    ("cards!(Jack, Hearts; Two, Clubs)", &[37,3], &cards!(Jack, Hearts; Two, Clubs)),
    ("cards!(Jack, Hearts; Three, Spades;)", &[37,4], &cards!(Jack, Hearts; Three, Spades;)),
    ("cards!(Jack, Hearts; Three, Hearts)", &[37,5], &cards!(Jack, Hearts; Three, Hearts)),
    ("cards!(Jack, Hearts; Three, Diamonds;)", &[37,6], &cards!(Jack, Hearts; Three, Diamonds;)),
    ("cards!(Jack, Hearts; Three, Clubs)", &[37,7], &cards!(Jack, Hearts; Three, Clubs)),
    ("cards!(Jack, Hearts; Four, Spades;)", &[37,8], &cards!(Jack, Hearts; Four, Spades;)),
    ("cards!(Jack, Hearts; Four, Hearts)", &[37,9], &cards!(Jack, Hearts; Four, Hearts)),
    ("cards!(Jack, Hearts; Four, Diamonds;)", &[37,10], &cards!(Jack, Hearts; Four, Diamonds;)),
    ("cards!(Jack, Hearts; Four, Clubs)", &[37,11], &cards!(Jack, Hearts; Four, Clubs)),
    ("cards!(Jack, Hearts; Five, Spades;)", &[37,12], &cards!(Jack, Hearts; Five, Spades;)),
    ("cards!(Jack, Hearts; Five, Hearts)", &[37,13], &cards!(Jack, Hearts; Five, Hearts)),
    ("cards!(Jack, Hearts; Five, Diamonds;)", &[37,14], &cards!(Jack, Hearts; Five, Diamonds;)),
    ("cards!(Jack, Hearts; Five, Clubs)", &[37,15], &cards!(Jack, Hearts; Five, Clubs)),
    ("cards!(Jack, Hearts; Six, Spades;)", &[37,16], &cards!(Jack, Hearts; Six, Spades;)),
    ("cards!(Jack, Hearts; Six, Hearts)", &[37,17], &cards!(Jack, Hearts; Six, Hearts)),
    ("cards!(Jack, Hearts; Six, Diamonds;)", &[37,18], &cards!(Jack, Hearts; Six, Diamonds;)),
    ("cards!(Jack, Hearts; Six, Clubs)", &[37,19], &cards!(Jack, Hearts; Six, Clubs)),
    ("cards!(Jack, Hearts; Seven, Spades;)", &[37,20], &cards!(Jack, Hearts; Seven, Spades;)),
    ("cards!(Jack, Hearts; Seven, Hearts)", &[37,21], &cards!(Jack, Hearts; Seven, Hearts)),
    ("cards!(Jack, Hearts; Seven, Diamonds;)", &[37,22], &cards!(Jack, Hearts; Seven, Diamonds;)),
    ("cards!(Jack, Hearts; Seven, Clubs)", &[37,23], &cards!(Jack, Hearts; Seven, Clubs)),
    ("cards!(Jack, Hearts; Eight, Spades;)", &[37,24], &cards!(Jack, Hearts; Eight, Spades;)),
    ("cards!(Jack, Hearts; Eight, Hearts)", &[37,25], &cards!(Jack, Hearts; Eight, Hearts)),
    ("cards!(Jack, Hearts; Eight, Diamonds;)", &[37,26], &cards!(Jack, Hearts; Eight, Diamonds;)),
    ("cards!(Jack, Hearts; Eight, Clubs)", &[37,27], &cards!(Jack, Hearts; Eight, Clubs)),
    ("cards!(Jack, Hearts; Nine, Spades;)", &[37,28], &cards!(Jack, Hearts; Nine, Spades;)),
    ("cards!(Jack, Hearts; Nine, Hearts)", &[37,29], &cards!(Jack, Hearts; Nine, Hearts)),
    ("cards!(Jack, Hearts; Nine, Diamonds;)", &[37,30], &cards!(Jack, Hearts; Nine, Diamonds;)),
    ("cards!(Jack, Hearts; Nine, Clubs)", &[37,31], &cards!(Jack, Hearts; Nine, Clubs)),
    ("cards!(Jack, Hearts; Ten, Spades;)", &[37,32], &cards!(Jack, Hearts; Ten, Spades;)),
    ("cards!(Jack, Hearts; Ten, Hearts)", &[37,33], &cards!(Jack, Hearts; Ten, Hearts)),
    ("cards!(Jack, Hearts; Ten, Diamonds;)", &[37,34], &cards!(Jack, Hearts; Ten, Diamonds;)),
    ("cards!(Jack, Hearts; Ten, Clubs)", &[37,35], &cards!(Jack, Hearts; Ten, Clubs)),
    ("cards!(Jack, Hearts; Jack, Spades;)", &[37,36], &cards!(Jack, Hearts; Jack, Spades;)),
    ("cards!(Jack, Hearts; Jack, Hearts)", &[37,37], &cards!(Jack, Hearts; Jack, Hearts)),
    ("cards!(Jack, Hearts; Jack, Diamonds;)", &[37,38], &cards!(Jack, Hearts; Jack, Diamonds;)),
    ("cards!(Jack, Hearts; Jack, Clubs)", &[37,39], &cards!(Jack, Hearts; Jack, Clubs)),
    ("cards!(Jack, Hearts; Queen, Spades;)", &[37,40], &cards!(Jack, Hearts; Queen, Spades;)),
    ("cards!(Jack, Hearts; Queen, Hearts)", &[37,41], &cards!(Jack, Hearts; Queen, Hearts)),
    ("cards!(Jack, Hearts; Queen, Diamonds;)", &[37,42], &cards!(Jack, Hearts; Queen, Diamonds;)),
    ("cards!(Jack, Hearts; Queen, Clubs)", &[37,43], &cards!(Jack, Hearts; Queen, Clubs)),
    ("cards!(Jack, Hearts; King, Spades;)", &[37,44], &cards!(Jack, Hearts; King, Spades;)),
    ("cards!(Jack, Hearts; King, Hearts)", &[37,45], &cards!(Jack, Hearts; King, Hearts)),
    ("cards!(Jack, Hearts; King, Diamonds;)", &[37,46], &cards!(Jack, Hearts; King, Diamonds;)),
    ("cards!(Jack, Hearts; King, Clubs)", &[37,47], &cards!(Jack, Hearts; King, Clubs)),
    ("cards!(Jack, Hearts; Ace, Spades;)", &[37,48], &cards!(Jack, Hearts; Ace, Spades;)),
    ("cards!(Jack, Hearts; Ace, Hearts)", &[37,49], &cards!(Jack, Hearts; Ace, Hearts)),
    ("cards!(Jack, Hearts; Ace, Diamonds;)", &[37,50], &cards!(Jack, Hearts; Ace, Diamonds;)),
    ("cards!(Jack, Hearts; Ace, Clubs)", &[37,51], &cards!(Jack, Hearts; Ace, Clubs)),
    ("cards!(Jack, Diamonds; Two, Spades)", &[38,0], &cards!(Jack, Diamonds; Two, Spades)),
    ("cards!(Jack, Diamonds; Two, Hearts;)", &[38,1], &cards!(Jack, Diamonds; Two, Hearts;)),
    ("cards!(Jack, Diamonds; Two, Diamonds)", &[38,2], &cards!(Jack, Diamonds; Two, Diamonds)),
    ("cards!(Jack, Diamonds; Two, Clubs;)", &[38,3], &cards!(Jack, Diamonds; Two, Clubs;)),
    ("cards!(Jack, Diamonds; Three, Spades)", &[38,4], &cards!(Jack, Diamonds; Three, Spades)),
    ("cards!(Jack, Diamonds; Three, Hearts;)", &[38,5], &cards!(Jack, Diamonds; Three, Hearts;)),
    ("cards!(Jack, Diamonds; Three, Diamonds)", &[38,6], &cards!(Jack, Diamonds; Three, Diamonds)),
    ("cards!(Jack, Diamonds; Three, Clubs;)", &[38,7], &cards!(Jack, Diamonds; Three, Clubs;)),
    ("cards!(Jack, Diamonds; Four, Spades)", &[38,8], &cards!(Jack, Diamonds; Four, Spades)),
    ("cards!(Jack, Diamonds; Four, Hearts;)", &[38,9], &cards!(Jack, Diamonds; Four, Hearts;)),
    ("cards!(Jack, Diamonds; Four, Diamonds)", &[38,10], &cards!(Jack, Diamonds; Four, Diamonds)),
    ("cards!(Jack, Diamonds; Four, Clubs;)", &[38,11], &cards!(Jack, Diamonds; Four, Clubs;)),
    ("cards!(Jack, Diamonds; Five, Spades)", &[38,12], &cards!(Jack, Diamonds; Five, Spades)),
    ("cards!(Jack, Diamonds; Five, Hearts;)", &[38,13], &cards!(Jack, Diamonds; Five, Hearts;)),
    ("cards!(Jack, Diamonds; Five, Diamonds)", &[38,14], &cards!(Jack, Diamonds; Five, Diamonds)),
    ("cards!(Jack, Diamonds; Five, Clubs;)", &[38,15], &cards!(Jack, Diamonds; Five, Clubs;)),
    ("cards!(Jack, Diamonds; Six, Spades)", &[38,16], &cards!(Jack, Diamonds; Six, Spades)),
    ("cards!(Jack, Diamonds; Six, Hearts;)", &[38,17], &cards!(Jack, Diamonds; Six, Hearts;)),
    ("cards!(Jack, Diamonds; Six, Diamonds)", &[38,18], &cards!(Jack, Diamonds; Six, Diamonds)),
    ("cards!(Jack, Diamonds; Six, Clubs;)", &[38,19], &cards!(Jack, Diamonds; Six, Clubs;)),
    ("cards!(Jack, Diamonds; Seven, Spades)", &[38,20], &cards!(Jack, Diamonds; Seven, Spades)),
    ("cards!(Jack, Diamonds; Seven, Hearts;)", &[38,21], &cards!(Jack, Diamonds; Seven, Hearts;)),
    ("cards!(Jack, Diamonds; Seven, Diamonds)", &[38,22], &cards!(Jack, Diamonds; Seven, Diamonds)),
    ("cards!(Jack, Diamonds; Seven, Clubs;)", &[38,23], &cards!(Jack, Diamonds; Seven, Clubs;)),
    ("cards!(Jack, Diamonds; Eight, Spades)", &[38,24], &cards!(Jack, Diamonds; Eight, Spades)),
    ("cards!(Jack, Diamonds; Eight, Hearts;)", &[38,25], &cards!(Jack, Diamonds; Eight, Hearts;)),
    ("cards!(Jack, Diamonds; Eight, Diamonds)", &[38,26], &cards!(Jack, Diamonds; Eight, Diamonds)),
    ("cards!(Jack, Diamonds; Eight, Clubs;)", &[38,27], &cards!(Jack, Diamonds; Eight, Clubs;)),
    ("cards!(Jack, Diamonds; Nine, Spades)", &[38,28], &cards!(Jack, Diamonds; Nine, Spades)),
    ("cards!(Jack, Diamonds; Nine, Hearts;)", &[38,29], &cards!(Jack, Diamonds; Nine, Hearts;)),
    ("cards!(Jack, Diamonds; Nine, Diamonds)", &[38,30], &cards!(Jack, Diamonds; Nine, Diamonds)),
    ("cards!(Jack, Diamonds; Nine, Clubs;)", &[38,31], &cards!(Jack, Diamonds; Nine, Clubs;)),
    ("cards!(Jack, Diamonds; Ten, Spades)", &[38,32], &cards!(Jack, Diamonds; Ten, Spades)),
    ("cards!(Jack, Diamonds; Ten, Hearts;)", &[38,33], &cards!(Jack, Diamonds; Ten, Hearts;)),
    ("cards!(Jack, Diamonds; Ten, Diamonds)", &[38,34], &cards!(Jack, Diamonds; Ten, Diamonds)),
    ("cards!(Jack, Diamonds; Ten, Clubs;)", &[38,35], &cards!(Jack, Diamonds; Ten, Clubs;)),
    ("cards!(Jack, Diamonds; Jack, Spades)", &[38,36], &cards!(Jack, Diamonds; Jack, Spades)),
    ("cards!(Jack, Diamonds; Jack, Hearts;)", &[38,37], &cards!(Jack, Diamonds; Jack, Hearts;)),
    ("cards!(Jack, Diamonds; Jack, Diamonds)", &[38,38], &cards!(Jack, Diamonds; Jack, Diamonds)),
    ("cards!(Jack, Diamonds; Jack, Clubs;)", &[38,39], &cards!(Jack, Diamonds; Jack, Clubs;)),
    ("cards!(Jack, Diamonds; Queen, Spades)", &[38,40], &cards!(Jack, Diamonds; Queen, Spades)),
    ("cards!(Jack, Diamonds; Queen, Hearts;)", &[38,41], &cards!(Jack, Diamonds; Queen, Hearts;)),
    ("cards!(Jack, Diamonds; Queen, Diamonds)", &[38,42], &cards!(Jack, Diamonds; Queen, Diamonds)),
    ("cards!(Jack, Diamonds; Queen, Clubs;)", &[38,43], &cards!(Jack, Diamonds; Queen, Clubs;)),
    ("cards!(Jack, Diamonds; King, Spades)", &[38,44], &cards!(Jack, Diamonds; King, Spades)),
    ("cards!(Jack, Diamonds; King, Hearts;)", &[38,45], &cards!(Jack, Diamonds; King, Hearts;)),
    ("cards!(Jack, Diamonds; King, Diamonds)", &[38,46], &cards!(Jack, Diamonds; King, Diamonds)),
    ("cards!(Jack, Diamonds; King, Clubs;)", &[38,47], &cards!(Jack, Diamonds; King, Clubs;)),
    ("cards!(Jack, Diamonds; Ace, Spades)", &[38,48], &cards!(Jack, Diamonds; Ace, Spades)),
    ("cards!(Jack, Diamonds; Ace, Hearts;)", &[38,49], &cards!(Jack, Diamonds; Ace, Hearts;)),
    ("cards!(Jack, Diamonds; Ace, Diamonds)", &[38,50], &cards!(Jack, Diamonds; Ace, Diamonds)),
    ("cards!(Jack, Diamonds; Ace, Clubs;)", &[38,51], &cards!(Jack, Diamonds; Ace, Clubs;)),
    ("cards!(Jack, Clubs; Two, Spades;)", &[39,0], &cards!(Jack, Clubs; Two, Spades;)),
    ("cards!(Jack, Clubs; Two, Hearts)", &[39,1], &cards!(Jack, Clubs; Two, Hearts)),
    ("cards!(Jack, Clubs; Two, Diamonds;)", &[39,2], &cards!(Jack, Clubs; Two, Diamonds;)),
    ("cards!(Jack, Clubs; Two, Clubs)", &[39,3], &cards!(Jack, Clubs; Two, Clubs)),
    ("cards!(Jack, Clubs; Three, Spades;)", &[39,4], &cards!(Jack, Clubs; Three, Spades;)),
    ("cards!(Jack, Clubs; Three, Hearts)", &[39,5], &cards!(Jack, Clubs; Three, Hearts)),
    ("cards!(Jack, Clubs; Three, Diamonds;)", &[39,6], &cards!(Jack, Clubs; Three, Diamonds;)),
    ("cards!(Jack, Clubs; Three, Clubs)", &[39,7], &cards!(Jack, Clubs; Three, Clubs)),
    ("cards!(Jack, Clubs; Four, Spades;)", &[39,8], &cards!(Jack, Clubs; Four, Spades;)),
    ("cards!(Jack, Clubs; Four, Hearts)", &[39,9], &cards!(Jack, Clubs; Four, Hearts)),
    ("cards!(Jack, Clubs; Four, Diamonds;)", &[39,10], &cards!(Jack, Clubs; Four, Diamonds;)),
    ("cards!(Jack, Clubs; Four, Clubs)", &[39,11], &cards!(Jack, Clubs; Four, Clubs)),
    ("cards!(Jack, Clubs; Five, Spades;)", &[39,12], &cards!(Jack, Clubs; Five, Spades;)),
    ("cards!(Jack, Clubs; Five, Hearts)", &[39,13], &cards!(Jack, Clubs; Five, Hearts)),
    ("cards!(Jack, Clubs; Five, Diamonds;)", &[39,14], &cards!(Jack, Clubs; Five, Diamonds;)),
    ("cards!(Jack, Clubs; Five, Clubs)", &[39,15], &cards!(Jack, Clubs; Five, Clubs)),
    ("cards!(Jack, Clubs; Six, Spades;)", &[39,16], &cards!(Jack, Clubs; Six, Spades;)),
    ("cards!(Jack, Clubs; Six, Hearts)", &[39,17], &cards!(Jack, Clubs; Six, Hearts)),
    ("cards!(Jack, Clubs; Six, Diamonds;)", &[39,18], &cards!(Jack, Clubs; Six, Diamonds;)),
    ("cards!(Jack, Clubs; Six, Clubs)", &[39,19], &cards!(Jack, Clubs; Six, Clubs)),
    ("cards!(Jack, Clubs; Seven, Spades;)", &[39,20], &cards!(Jack, Clubs; Seven, Spades;)),
    ("cards!(Jack, Clubs; Seven, Hearts)", &[39,21], &cards!(Jack, Clubs; Seven, Hearts)),
    ("cards!(Jack, Clubs; Seven, Diamonds;)", &[39,22], &cards!(Jack, Clubs; Seven, Diamonds;)),
    ("cards!(Jack, Clubs; Seven, Clubs)", &[39,23], &cards!(Jack, Clubs; Seven, Clubs)),
    ("cards!(Jack, Clubs; Eight, Spades;)", &[39,24], &cards!(Jack, Clubs; Eight, Spades;)),
    ("cards!(Jack, Clubs; Eight, Hearts)", &[39,25], &cards!(Jack, Clubs; Eight, Hearts)),
    ("cards!(Jack, Clubs; Eight, Diamonds;)", &[39,26], &cards!(Jack, Clubs; Eight, Diamonds;)),
    ("cards!(Jack, Clubs; Eight, Clubs)", &[39,27], &cards!(Jack, Clubs; Eight, Clubs)),
    ("cards!(Jack, Clubs; Nine, Spades;)", &[39,28], &cards!(Jack, Clubs; Nine, Spades;)),
    ("cards!(Jack, Clubs; Nine, Hearts)", &[39,29], &cards!(Jack, Clubs; Nine, Hearts)),
    ("cards!(Jack, Clubs; Nine, Diamonds;)", &[39,30], &cards!(Jack, Clubs; Nine, Diamonds;)),
    ("cards!(Jack, Clubs; Nine, Clubs)", &[39,31], &cards!(Jack, Clubs; Nine, Clubs)),
    ("cards!(Jack, Clubs; Ten, Spades;)", &[39,32], &cards!(Jack, Clubs; Ten, Spades;)),
    ("cards!(Jack, Clubs; Ten, Hearts)", &[39,33], &cards!(Jack, Clubs; Ten, Hearts)),
    ("cards!(Jack, Clubs; Ten, Diamonds;)", &[39,34], &cards!(Jack, Clubs; Ten, Diamonds;)),
    ("cards!(Jack, Clubs; Ten, Clubs)", &[39,35], &cards!(Jack, Clubs; Ten, Clubs)),
    ("cards!(Jack, Clubs; Jack, Spades;)", &[39,36], &cards!(Jack, Clubs; Jack, Spades;)),
    ("cards!(Jack, Clubs; Jack, Hearts)", &[39,37], &cards!(Jack, Clubs; Jack, Hearts)),
    ("cards!(Jack, Clubs; Jack, Diamonds;)", &[39,38], &cards!(Jack, Clubs; Jack, Diamonds;)),
    ("cards!(Jack, Clubs; Jack, Clubs)", &[39,39], &cards!(Jack, Clubs; Jack, Clubs)),
    ("cards!(Jack, Clubs; Queen, Spades;)", &[39,40], &cards!(Jack, Clubs; Queen, Spades;)),
    ("cards!(Jack, Clubs; Queen, Hearts)", &[39,41], &cards!(Jack, Clubs; Queen, Hearts)),
    ("cards!(Jack, Clubs; Queen, Diamonds;)", &[39,42], &cards!(Jack, Clubs; Queen, Diamonds;)),
    ("cards!(Jack, Clubs; Queen, Clubs)", &[39,43], &cards!(Jack, Clubs; Queen, Clubs)),
    ("cards!(Jack, Clubs; King, Spades;)", &[39,44], &cards!(Jack, Clubs; King, Spades;)),
    ("cards!(Jack, Clubs; King, Hearts)", &[39,45], &cards!(Jack, Clubs; King, Hearts)),
    ("cards!(Jack, Clubs; King, Diamonds;)", &[39,46], &cards!(Jack, Clubs; King, Diamonds;)),
    ("cards!(Jack, Clubs; King, Clubs)", &[39,47], &cards!(Jack, Clubs; King, Clubs)),
    ("cards!(Jack, Clubs; Ace, Spades;)", &[39,48], &cards!(Jack, Clubs; Ace, Spades;)),
    ("cards!(Jack, Clubs; Ace, Hearts)", &[39,49], &cards!(Jack, Clubs; Ace, Hearts)),
    ("cards!(Jack, Clubs; Ace, Diamonds;)", &[39,50], &cards!(Jack, Clubs; Ace, Diamonds;)),
    ("cards!(Jack, Clubs; Ace, Clubs)", &[39,51], &cards!(Jack, Clubs; Ace, Clubs)),
    ("cards!(Queen, Spades; Two, Spades)", &[40,0], &cards!(Queen, Spades; Two, Spades)),
    ("cards!(Queen, Spades; Two, Hearts;)", &[40,1], &cards!(Queen, Spades; Two, Hearts;)),
    ("cards!(Queen, Spades; Two, Diamonds)", &[40,2], &cards!(Queen, Spades; Two, Diamonds)),
    ("cards!(Queen, Spades; Two, Clubs;)", &[40,3], &cards!(Queen, Spades; Two, Clubs;)),
    ("cards!(Queen, Spades; Three, Spades)", &[40,4], &cards!(Queen, Spades; Three, Spades)),
    ("cards!(Queen, Spades; Three, Hearts;)", &[40,5], &cards!(Queen, Spades; Three, Hearts;)),
    ("cards!(Queen, Spades; Three, Diamonds)", &[40,6], &cards!(Queen, Spades; Three, Diamonds)),
    ("cards!(Queen, Spades; Three, Clubs;)", &[40,7], &cards!(Queen, Spades; Three, Clubs;)),
    ("cards!(Queen, Spades; Four, Spades)", &[40,8], &cards!(Queen, Spades; Four, Spades)),
    ("cards!(Queen, Spades; Four, Hearts;)", &[40,9], &cards!(Queen, Spades; Four, Hearts;)),
    ("cards!(Queen, Spades; Four, Diamonds)", &[40,10], &cards!(Queen, Spades; Four, Diamonds)),
    ("cards!(Queen, Spades; Four, Clubs;)", &[40,11], &cards!(Queen, Spades; Four, Clubs;)),
    ("cards!(Queen, Spades; Five, Spades)", &[40,12], &cards!(Queen, Spades; Five, Spades)),
    ("cards!(Queen, Spades; Five, Hearts;)", &[40,13], &cards!(Queen, Spades; Five, Hearts;)),
    ("cards!(Queen, Spades; Five, Diamonds)", &[40,14], &cards!(Queen, Spades; Five, Diamonds)),
    ("cards!(Queen, Spades; Five, Clubs;)", &[40,15], &cards!(Queen, Spades; Five, Clubs;)),
    ("cards!(Queen, Spades; Six, Spades)", &[40,16], &cards!(Queen, Spades; Six, Spades)),
    ("cards!(Queen, Spades; Six, Hearts;)", &[40,17], &cards!(Queen, Spades; Six, Hearts;)),
    ("cards!(Queen, Spades; Six, Diamonds)", &[40,18], &cards!(Queen, Spades; Six, Diamonds)),
    ("cards!(Queen, Spades; Six, Clubs;)", &[40,19], &cards!(Queen, Spades; Six, Clubs;)),
    ("cards!(Queen, Spades; Seven, Spades)", &[40,20], &cards!(Queen, Spades; Seven, Spades)),
    ("cards!(Queen, Spades; Seven, Hearts;)", &[40,21], &cards!(Queen, Spades; Seven, Hearts;)),
    ("cards!(Queen, Spades; Seven, Diamonds)", &[40,22], &cards!(Queen, Spades; Seven, Diamonds)),
    ("cards!(Queen, Spades; Seven, Clubs;)", &[40,23], &cards!(Queen, Spades; Seven, Clubs;)),
    ("cards!(Queen, Spades; Eight, Spades)", &[40,24], &cards!(Queen, Spades; Eight, Spades)),
    ("cards!(Queen, Spades; Eight, Hearts;)", &[40,25], &cards!(Queen, Spades; Eight, Hearts;)),
    ("cards!(Queen, Spades; Eight, Diamonds)", &[40,26], &cards!(Queen, Spades; Eight, Diamonds)),
    ("cards!(Queen, Spades; Eight, Clubs;)", &[40,27], &cards!(Queen, Spades; Eight, Clubs;)),
    ("cards!(Queen, Spades; Nine, Spades)", &[40,28], &cards!(Queen, Spades; Nine, Spades)),
    ("cards!(Queen, Spades; Nine, Hearts;)", &[40,29], &cards!(Queen, Spades; Nine, Hearts;)),
    ("cards!(Queen, Spades; Nine, Diamonds)", &[40,30], &cards!(Queen, Spades; Nine, Diamonds)),
    ("cards!(Queen, Spades; Nine, Clubs;)", &[40,31], &cards!(Queen, Spades; Nine, Clubs;)),
    ("cards!(Queen, Spades; Ten, Spades)", &[40,32], &cards!(Queen, Spades; Ten, Spades)),
    ("cards!(Queen, Spades; Ten, Hearts;)", &[40,33], &cards!(Queen, Spades; Ten, Hearts;)),
    ("cards!(Queen, Spades; Ten, Diamonds)", &[40,34], &cards!(Queen, Spades; Ten, Diamonds)),
    ("cards!(Queen, Spades; Ten, Clubs;)", &[40,35], &cards!(Queen, Spades; Ten, Clubs;)),
    ("cards!(Queen, Spades; Jack, Spades)", &[40,36], &cards!(Queen, Spades; Jack, Spades)),
    ("cards!(Queen, Spades; Jack, Hearts;)", &[40,37], &cards!(Queen, Spades; Jack, Hearts;)),
    ("cards!(Queen, Spades; Jack, Diamonds)", &[40,38], &cards!(Queen, Spades; Jack, Diamonds)),
    ("cards!(Queen, Spades; Jack, Clubs;)", &[40,39], &cards!(Queen, Spades; Jack, Clubs;)),
    ("cards!(Queen, Spades; Queen, Spades)", &[40,40], &cards!(Queen, Spades; Queen, Spades)),
    ("cards!(Queen, Spades; Queen, Hearts;)", &[40,41], &cards!(Queen, Spades; Queen, Hearts;)),
    ("cards!(Queen, Spades; Queen, Diamonds)", &[40,42], &cards!(Queen, Spades; Queen, Diamonds)),
    ("cards!(Queen, Spades; Queen, Clubs;)", &[40,43], &cards!(Queen, Spades; Queen, Clubs;)),
    ("cards!(Queen, Spades; King, Spades)", &[40,44], &cards!(Queen, Spades; King, Spades)),
    ("cards!(Queen, Spades; King, Hearts;)", &[40,45], &cards!(Queen, Spades; King, Hearts;)),
    ("cards!(Queen, Spades; King, Diamonds)", &[40,46], &cards!(Queen, Spades; King, Diamonds)),
    ("cards!(Queen, Spades; King, Clubs;)", &[40,47], &cards!(Queen, Spades; King, Clubs;)),
    ("cards!(Queen, Spades; Ace, Spades)", &[40,48], &cards!(Queen, Spades; Ace, Spades)),
    ("cards!(Queen, Spades; Ace, Hearts;)", &[40,49], &cards!(Queen, Spades; Ace, Hearts;)),
    ("cards!(Queen, Spades; Ace, Diamonds)", &[40,50], &cards!(Queen, Spades; Ace, Diamonds)),
    ("cards!(Queen, Spades; Ace, Clubs;)", &[40,51], &cards!(Queen, Spades; Ace, Clubs;)),
    ("cards!(Queen, Hearts; Two, Spades;)", &[41,0], &cards!(Queen, Hearts; Two, Spades;)),
    ("cards!(Queen, Hearts; Two, Hearts)", &[41,1], &cards!(Queen, Hearts; Two, Hearts)),
    ("cards!(Queen, Hearts; Two, Diamonds;)", &[41,2], &cards!(Queen, Hearts; Two, Diamonds;)),
    ("cards!(Queen, Hearts; Two, Clubs)", &[41,3], &cards!(Queen, Hearts; Two, Clubs)),
    ("cards!(Queen, Hearts; Three, Spades;)", &[41,4], &cards!(Queen, Hearts; Three, Spades;)),
    ("cards!(Queen, Hearts; Three, Hearts)", &[41,5], &cards!(Queen, Hearts; Three, Hearts)),
    ("cards!(Queen, Hearts; Three, Diamonds;)", &[41,6], &cards!(Queen, Hearts; Three, Diamonds;)),
    ("cards!(Queen, Hearts; Three, Clubs)", &[41,7], &cards!(Queen, Hearts; Three, Clubs)),
    ("cards!(Queen, Hearts; Four, Spades;)", &[41,8], &cards!(Queen, Hearts; Four, Spades;)),
    ("cards!(Queen, Hearts; Four, Hearts)", &[41,9], &cards!(Queen, Hearts; Four, Hearts)),
    ("cards!(Queen, Hearts; Four, Diamonds;)", &[41,10], &cards!(Queen, Hearts; Four, Diamonds;)),
    ("cards!(Queen, Hearts; Four, Clubs)", &[41,11], &cards!(Queen, Hearts; Four, Clubs)),
    ("cards!(Queen, Hearts; Five, Spades;)", &[41,12], &cards!(Queen, Hearts; Five, Spades;)),
    ("cards!(Queen, Hearts; Five, Hearts)", &[41,13], &cards!(Queen, Hearts; Five, Hearts)),
    ("cards!(Queen, Hearts; Five, Diamonds;)", &[41,14], &cards!(Queen, Hearts; Five, Diamonds;)),
    ("cards!(Queen, Hearts; Five, Clubs)", &[41,15], &cards!(Queen, Hearts; Five, Clubs)),
    ("cards!(Queen, Hearts; Six, Spades;)", &[41,16], &cards!(Queen, Hearts; Six, Spades;)),
    ("cards!(Queen, Hearts; Six, Hearts)", &[41,17], &cards!(Queen, Hearts; Six, Hearts)),
    ("cards!(Queen, Hearts; Six, Diamonds;)", &[41,18], &cards!(Queen, Hearts; Six, Diamonds;)),
    ("cards!(Queen, Hearts; Six, Clubs)", &[41,19], &cards!(Queen, Hearts; Six, Clubs)),
    ("cards!(Queen, Hearts; Seven, Spades;)", &[41,20], &cards!(Queen, Hearts; Seven, Spades;)),
    ("cards!(Queen, Hearts; Seven, Hearts)", &[41,21], &cards!(Queen, Hearts; Seven, Hearts)),
    ("cards!(Queen, Hearts; Seven, Diamonds;)", &[41,22], &cards!(Queen, Hearts; Seven, Diamonds;)),
    ("cards!(Queen, Hearts; Seven, Clubs)", &[41,23], &cards!(Queen, Hearts; Seven, Clubs)),
    ("cards!(Queen, Hearts; Eight, Spades;)", &[41,24], &cards!(Queen, Hearts; Eight, Spades;)),
    ("cards!(Queen, Hearts; Eight, Hearts)", &[41,25], &cards!(Queen, Hearts; Eight, Hearts)),
    ("cards!(Queen, Hearts; Eight, Diamonds;)", &[41,26], &cards!(Queen, Hearts; Eight, Diamonds;)),
    ("cards!(Queen, Hearts; Eight, Clubs)", &[41,27], &cards!(Queen, Hearts; Eight, Clubs)),
    ("cards!(Queen, Hearts; Nine, Spades;)", &[41,28], &cards!(Queen, Hearts; Nine, Spades;)),
    ("cards!(Queen, Hearts; Nine, Hearts)", &[41,29], &cards!(Queen, Hearts; Nine, Hearts)),
    ("cards!(Queen, Hearts; Nine, Diamonds;)", &[41,30], &cards!(Queen, Hearts; Nine, Diamonds;)),
    ("cards!(Queen, Hearts; Nine, Clubs)", &[41,31], &cards!(Queen, Hearts; Nine, Clubs)),
    ("cards!(Queen, Hearts; Ten, Spades;)", &[41,32], &cards!(Queen, Hearts; Ten, Spades;)),
    ("cards!(Queen, Hearts; Ten, Hearts)", &[41,33], &cards!(Queen, Hearts; Ten, Hearts)),
    ("cards!(Queen, Hearts; Ten, Diamonds;)", &[41,34], &cards!(Queen, Hearts; Ten, Diamonds;)),
    ("cards!(Queen, Hearts; Ten, Clubs)", &[41,35], &cards!(Queen, Hearts; Ten, Clubs)),
    ("cards!(Queen, Hearts; Jack, Spades;)", &[41,36], &cards!(Queen, Hearts; Jack, Spades;)),
    ("cards!(Queen, Hearts; Jack, Hearts)", &[41,37], &cards!(Queen, Hearts; Jack, Hearts)),
    ("cards!(Queen, Hearts; Jack, Diamonds;)", &[41,38], &cards!(Queen, Hearts; Jack, Diamonds;)),
    ("cards!(Queen, Hearts; Jack, Clubs)", &[41,39], &cards!(Queen, Hearts; Jack, Clubs)),
    ("cards!(Queen, Hearts; Queen, Spades;)", &[41,40], &cards!(Queen, Hearts; Queen, Spades;)),
    ("cards!(Queen, Hearts; Queen, Hearts)", &[41,41], &cards!(Queen, Hearts; Queen, Hearts)),
    ("cards!(Queen, Hearts; Queen, Diamonds;)", &[41,42], &cards!(Queen, Hearts; Queen, Diamonds;)),
    ("cards!(Queen, Hearts; Queen, Clubs)", &[41,43], &cards!(Queen, Hearts; Queen, Clubs)),
    ("cards!(Queen, Hearts; King, Spades;)", &[41,44], &cards!(Queen, Hearts; King, Spades;)),
    ("cards!(Queen, Hearts; King, Hearts)", &[41,45], &cards!(Queen, Hearts; King, Hearts)),
    ("cards!(Queen, Hearts; King, Diamonds;)", &[41,46], &cards!(Queen, Hearts; King, Diamonds;)),
    ("cards!(Queen, Hearts; King, Clubs)", &[41,47], &cards!(Queen, Hearts; King, Clubs)),
    ("cards!(Queen, Hearts; Ace, Spades;)", &[41,48], &cards!(Queen, Hearts; Ace, Spades;)),
    ("cards!(Queen, Hearts; Ace, Hearts)", &[41,49], &cards!(Queen, Hearts; Ace, Hearts)),
    ("cards!(Queen, Hearts; Ace, Diamonds;)", &[41,50], &cards!(Queen, Hearts; Ace, Diamonds;)),
    ("cards!(Queen, Hearts; Ace, Clubs)", &[41,51], &cards!(Queen, Hearts; Ace, Clubs)),
    ("cards!(Queen, Diamonds; Two, Spades)", &[42,0], &cards!(Queen, Diamonds; Two, Spades)),
    ("cards!(Queen, Diamonds; Two, Hearts;)", &[42,1], &cards!(Queen, Diamonds; Two, Hearts;)),
    ("cards!(Queen, Diamonds; Two, Diamonds)", &[42,2], &cards!(Queen, Diamonds; Two, Diamonds)),
    ("cards!(Queen, Diamonds; Two, Clubs;)", &[42,3], &cards!(Queen, Diamonds; Two, Clubs;)),
    ("cards!(Queen, Diamonds; Three, Spades)", &[42,4], &cards!(Queen, Diamonds; Three, Spades)),
    ("cards!(Queen, Diamonds; Three, Hearts;)", &[42,5], &cards!(Queen, Diamonds; Three, Hearts;)),
    ("cards!(Queen, Diamonds; Three, Diamonds)", &[42,6], &cards!(Queen, Diamonds; Three, Diamonds)),
    ("cards!(Queen, Diamonds; Three, Clubs;)", &[42,7], &cards!(Queen, Diamonds; Three, Clubs;)),
    ("cards!(Queen, Diamonds; Four, Spades)", &[42,8], &cards!(Queen, Diamonds; Four, Spades)),
    ("cards!(Queen, Diamonds; Four, Hearts;)", &[42,9], &cards!(Queen, Diamonds; Four, Hearts;)),
    ("cards!(Queen, Diamonds; Four, Diamonds)", &[42,10], &cards!(Queen, Diamonds; Four, Diamonds)),
    ("cards!(Queen, Diamonds; Four, Clubs;)", &[42,11], &cards!(Queen, Diamonds; Four, Clubs;)),
    ("cards!(Queen, Diamonds; Five, Spades)", &[42,12], &cards!(Queen, Diamonds; Five, Spades)),
    ("cards!(Queen, Diamonds; Five, Hearts;)", &[42,13], &cards!(Queen, Diamonds; Five, Hearts;)),
    ("cards!(Queen, Diamonds; Five, Diamonds)", &[42,14], &cards!(Queen, Diamonds; Five, Diamonds)),
    ("cards!(Queen, Diamonds; Five, Clubs;)", &[42,15], &cards!(Queen, Diamonds; Five, Clubs;)),
    ("cards!(Queen, Diamonds; Six, Spades)", &[42,16], &cards!(Queen, Diamonds; Six, Spades)),
    ("cards!(Queen, Diamonds; Six, Hearts;)", &[42,17], &cards!(Queen, Diamonds; Six, Hearts;)),
    ("cards!(Queen, Diamonds; Six, Diamonds)", &[42,18], &cards!(Queen, Diamonds; Six, Diamonds)),
    ("cards!(Queen, Diamonds; Six, Clubs;)", &[42,19], &cards!(Queen, Diamonds; Six, Clubs;)),
    ("cards!(Queen, Diamonds; Seven, Spades)", &[42,20], &cards!(Queen, Diamonds; Seven, Spades)),
    ("cards!(Queen, Diamonds; Seven, Hearts;)", &[42,21], &cards!(Queen, Diamonds; Seven, Hearts;)),
    ("cards!(Queen, Diamonds; Seven, Diamonds)", &[42,22], &cards!(Queen, Diamonds; Seven, Diamonds)),
    ("cards!(Queen, Diamonds; Seven, Clubs;)", &[42,23], &cards!(Queen, Diamonds; Seven, Clubs;)),
    ("cards!(Queen, Diamonds; Eight, Spades)", &[42,24], &cards!(Queen, Diamonds; Eight, Spades)),
    ("cards!(Queen, Diamonds; Eight, Hearts;)", &[42,25], &cards!(Queen, Diamonds; Eight, Hearts;)),
    ("cards!(Queen, Diamonds; Eight, Diamonds)", &[42,26], &cards!(Queen, Diamonds; Eight, Diamonds)),
    ("cards!(Queen, Diamonds; Eight, Clubs;)", &[42,27], &cards!(Queen, Diamonds; Eight, Clubs;)),
    ("cards!(Queen, Diamonds; Nine, Spades)", &[42,28], &cards!(Queen, Diamonds; Nine, Spades)),
    ("cards!(Queen, Diamonds; Nine, Hearts;)", &[42,29], &cards!(Queen, Diamonds; Nine, Hearts;)),
    ("cards!(Queen, Diamonds; Nine, Diamonds)", &[42,30], &cards!(Queen, Diamonds; Nine, Diamonds)),
    ("cards!(Queen, Diamonds; Nine, Clubs;)", &[42,31], &cards!(Queen, Diamonds; Nine, Clubs;)),
    ("cards!(Queen, Diamonds; Ten, Spades)", &[42,32], &cards!(Queen, Diamonds; Ten, Spades)),
    ("cards!(Queen, Diamonds; Ten, Hearts;)", &[42,33], &cards!(Queen, Diamonds; Ten, Hearts;)),
    ("cards!(Queen, Diamonds; Ten, Diamonds)", &[42,34], &cards!(Queen, Diamonds; Ten, Diamonds)),
    ("cards!(Queen, Diamonds; Ten, Clubs;)", &[42,35], &cards!(Queen, Diamonds; Ten, Clubs;)),
    ("cards!(Queen, Diamonds; Jack, Spades)", &[42,36], &cards!(Queen, Diamonds; Jack, Spades)),
    ("cards!(Queen, Diamonds; Jack, Hearts;)", &[42,37], &cards!(Queen, Diamonds; Jack, Hearts;)),
    ("cards!(Queen, Diamonds; Jack, Diamonds)", &[42,38], &cards!(Queen, Diamonds; Jack, Diamonds)),
    ("cards!(Queen, Diamonds; Jack, Clubs;)", &[42,39], &cards!(Queen, Diamonds; Jack, Clubs;)),
    ("cards!(Queen, Diamonds; Queen, Spades)", &[42,40], &cards!(Queen, Diamonds; Queen, Spades)),
    ("cards!(Queen, Diamonds; Queen, Hearts;)", &[42,41], &cards!(Queen, Diamonds; Queen, Hearts;)),
    ("cards!(Queen, Diamonds; Queen, Diamonds)", &[42,42], &cards!(Queen, Diamonds; Queen, Diamonds)),
    ("cards!(Queen, Diamonds; Queen, Clubs;)", &[42,43], &cards!(Queen, Diamonds; Queen, Clubs;)),
    ("cards!(Queen, Diamonds; King, Spades)", &[42,44], &cards!(Queen, Diamonds; King, Spades)),
    ("cards!(Queen, Diamonds; King, Hearts;)", &[42,45], &cards!(Queen, Diamonds; King, Hearts;)),
    ("cards!(Queen, Diamonds; King, Diamonds)", &[42,46], &cards!(Queen, Diamonds; King, Diamonds)),
    ("cards!(Queen, Diamonds; King, Clubs;)", &[42,47], &cards!(Queen, Diamonds; King, Clubs;)),
    ("cards!(Queen, Diamonds; Ace, Spades)", &[42,48], &cards!(Queen, Diamonds; Ace, Spades)),
    ("cards!(Queen, Diamonds; Ace, Hearts;)", &[42,49], &cards!(Queen, Diamonds; Ace, Hearts;)),
    ("cards!(Queen, Diamonds; Ace, Diamonds)", &[42,50], &cards!(Queen, Diamonds; Ace, Diamonds)),
    ("cards!(Queen, Diamonds; Ace, Clubs;)", &[42,51], &cards!(Queen, Diamonds; Ace, Clubs;)),
    ("cards!(Queen, Clubs; Two, Spades;)", &[43,0], &cards!(Queen, Clubs; Two, Spades;)),
    ("cards!(Queen, Clubs; Two, Hearts)", &[43,1], &cards!(Queen, Clubs; Two, Hearts)),
    ("cards!(Queen, Clubs; Two, Diamonds;)", &[43,2], &cards!(Queen, Clubs; Two, Diamonds;)),
    ("cards!(Queen, Clubs; Two, Clubs)", &[43,3], &cards!(Queen, Clubs; Two, Clubs)),
    ("cards!(Queen, Clubs; Three, Spades;)", &[43,4], &cards!(Queen, Clubs; Three, Spades;)),
    ("cards!(Queen, Clubs; Three, Hearts)", &[43,5], &cards!(Queen, Clubs; Three, Hearts)),
    ("cards!(Queen, Clubs; Three, Diamonds;)", &[43,6], &cards!(Queen, Clubs; Three, Diamonds;)),
    ("cards!(Queen, Clubs; Three, Clubs)", &[43,7], &cards!(Queen, Clubs; Three, Clubs)),
    ("cards!(Queen, Clubs; Four, Spades;)", &[43,8], &cards!(Queen, Clubs; Four, Spades;)),
    ("cards!(Queen, Clubs; Four, Hearts)", &[43,9], &cards!(Queen, Clubs; Four, Hearts)),
    ("cards!(Queen, Clubs; Four, Diamonds;)", &[43,10], &cards!(Queen, Clubs; Four, Diamonds;)),
    ("cards!(Queen, Clubs; Four, Clubs)", &[43,11], &cards!(Queen, Clubs; Four, Clubs)),
    ("cards!(Queen, Clubs; Five, Spades;)", &[43,12], &cards!(Queen, Clubs; Five, Spades;)),
    ("cards!(Queen, Clubs; Five, Hearts)", &[43,13], &cards!(Queen, Clubs; Five, Hearts)),
    ("cards!(Queen, Clubs; Five, Diamonds;)", &[43,14], &cards!(Queen, Clubs; Five, Diamonds;)),
    ("cards!(Queen, Clubs; Five, Clubs)", &[43,15], &cards!(Queen, Clubs; Five, Clubs)),
    ("cards!(Queen, Clubs; Six, Spades;)", &[43,16], &cards!(Queen, Clubs; Six, Spades;)),
    ("cards!(Queen, Clubs; Six, Hearts)", &[43,17], &cards!(Queen, Clubs; Six, Hearts)),
    ("cards!(Queen, Clubs; Six, Diamonds;)", &[43,18], &cards!(Queen, Clubs; Six, Diamonds;)),
    ("cards!(Queen, Clubs; Six, Clubs)", &[43,19], &cards!(Queen, Clubs; Six, Clubs)),
    ("cards!(Queen, Clubs; Seven, Spades;)", &[43,20], &cards!(Queen, Clubs; Seven, Spades;)),
    ("cards!(Queen, Clubs; Seven, Hearts)", &[43,21], &cards!(Queen, Clubs; Seven, Hearts)),
    ("cards!(Queen, Clubs; Seven, Diamonds;)", &[43,22], &cards!(Queen, Clubs; Seven, Diamonds;)),
    ("cards!(Queen, Clubs; Seven, Clubs)", &[43,23], &cards!(Queen, Clubs; Seven, Clubs)),
    ("cards!(Queen, Clubs; Eight, Spades;)", &[43,24], &cards!(Queen, Clubs; Eight, Spades;)),
    ("cards!(Queen, Clubs; Eight, Hearts)", &[43,25], &cards!(Queen, Clubs; Eight, Hearts)),
    ("cards!(Queen, Clubs; Eight, Diamonds;)", &[43,26], &cards!(Queen, Clubs; Eight, Diamonds;)),
    ("cards!(Queen, Clubs; Eight, Clubs)", &[43,27], &cards!(Queen, Clubs; Eight, Clubs)),
    ("cards!(Queen, Clubs; Nine, Spades;)", &[43,28], &cards!(Queen, Clubs; Nine, Spades;)),
    ("cards!(Queen, Clubs; Nine, Hearts)", &[43,29], &cards!(Queen, Clubs; Nine, Hearts)),
    ("cards!(Queen, Clubs; Nine, Diamonds;)", &[43,30], &cards!(Queen, Clubs; Nine, Diamonds;)),
    ("cards!(Queen, Clubs; Nine, Clubs)", &[43,31], &cards!(Queen, Clubs; Nine, Clubs)),
    ("cards!(Queen, Clubs; Ten, Spades;)", &[43,32], &cards!(Queen, Clubs; Ten, Spades;)),
    ("cards!(Queen, Clubs; Ten, Hearts)", &[43,33], &cards!(Queen, Clubs; Ten, Hearts)),
    ("cards!(Queen, Clubs; Ten, Diamonds;)", &[43,34], &cards!(Queen, Clubs; Ten, Diamonds;)),
    ("cards!(Queen, Clubs; Ten, Clubs)", &[43,35], &cards!(Queen, Clubs; Ten, Clubs)),
    ("cards!(Queen, Clubs; Jack, Spades;)", &[43,36], &cards!(Queen, Clubs; Jack, Spades;)),
    ("cards!(Queen, Clubs; Jack, Hearts)", &[43,37], &cards!(Queen, Clubs; Jack, Hearts)),
    ("cards!(Queen, Clubs; Jack, Diamonds;)", &[43,38], &cards!(Queen, Clubs; Jack, Diamonds;)),
    ("cards!(Queen, Clubs; Jack, Clubs)", &[43,39], &cards!(Queen, Clubs; Jack, Clubs)),
    ("cards!(Queen, Clubs; Queen, Spades;)", &[43,40], &cards!(Queen, Clubs; Queen, Spades;)),
    ("cards!(Queen, Clubs; Queen, Hearts)", &[43,41], &cards!(Queen, Clubs; Queen, Hearts)),
    ("cards!(Queen, Clubs; Queen, Diamonds;)", &[43,42], &cards!(Queen, Clubs; Queen, Diamonds;)),
    ("cards!(Queen, Clubs; Queen, Clubs)", &[43,43], &cards!(Queen, Clubs; Queen, Clubs)),
    ("cards!(Queen, Clubs; King, Spades;)", &[43,44], &cards!(Queen, Clubs; King, Spades;)),
    ("cards!(Queen, Clubs; King, Hearts)", &[43,45], &cards!(Queen, Clubs; King, Hearts)),
    ("cards!(Queen, Clubs; King, Diamonds;)", &[43,46], &cards!(Queen, Clubs; King, Diamonds;)),
    ("cards!(Queen, Clubs; King, Clubs)", &[43,47], &cards!(Queen, Clubs; King, Clubs)),
    ("cards!(Queen, Clubs; Ace, Spades;)", &[43,48], &cards!(Queen, Clubs; Ace, Spades;)),
    ("cards!(Queen, Clubs; Ace, Hearts)", &[43,49], &cards!(Queen, Clubs; Ace, Hearts)),
    ("cards!(Queen, Clubs; Ace, Diamonds;)", &[43,50], &cards!(Queen, Clubs; Ace, Diamonds;)),
    ("cards!(Queen, Clubs; Ace, Clubs)", &[43,51], &cards!(Queen, Clubs; Ace, Clubs)),
    ("cards!(King, Spades; Two, Spades)", &[44,0], &cards!(King, Spades; Two, Spades)),
    ("cards!(King, Spades; Two, Hearts;)", &[44,1], &cards!(King, Spades; Two, Hearts;)),
    ("cards!(King, Spades; Two, Diamonds)", &[44,2], &cards!(King, Spades; Two, Diamonds)),
    ("cards!(King, Spades; Two, Clubs;)", &[44,3], &cards!(King, Spades; Two, Clubs;)),
    ("cards!(King, Spades; Three, Spades)", &[44,4], &cards!(King, Spades; Three, Spades)),
    ("cards!(King, Spades; Three, Hearts;)", &[44,5], &cards!(King, Spades; Three, Hearts;)),
    ("cards!(King, Spades; Three, Diamonds)", &[44,6], &cards!(King, Spades; Three, Diamonds)),
    ("cards!(King, Spades; Three, Clubs;)", &[44,7], &cards!(King, Spades; Three, Clubs;)),
    ("cards!(King, Spades; Four, Spades)", &[44,8], &cards!(King, Spades; Four, Spades)),
    ("cards!(King, Spades; Four, Hearts;)", &[44,9], &cards!(King, Spades; Four, Hearts;)),
    ("cards!(King, Spades; Four, Diamonds)", &[44,10], &cards!(King, Spades; Four, Diamonds)),
    ("cards!(King, Spades; Four, Clubs;)", &[44,11], &cards!(King, Spades; Four, Clubs;)),
    ("cards!(King, Spades; Five, Spades)", &[44,12], &cards!(King, Spades; Five, Spades)),
    ("cards!(King, Spades; Five, Hearts;)", &[44,13], &cards!(King, Spades; Five, Hearts;)),
    ("cards!(King, Spades; Five, Diamonds)", &[44,14], &cards!(King, Spades; Five, Diamonds)),
    ("cards!(King, Spades; Five, Clubs;)", &[44,15], &cards!(King, Spades; Five, Clubs;)),
    ("cards!(King, Spades; Six, Spades)", &[44,16], &cards!(King, Spades; Six, Spades)),
    ("cards!(King, Spades; Six, Hearts;)", &[44,17], &cards!(King, Spades; Six, Hearts;)),
    ("cards!(King, Spades; Six, Diamonds)", &[44,18], &cards!(King, Spades; Six, Diamonds)),
    ("cards!(King, Spades; Six, Clubs;)", &[44,19], &cards!(King, Spades; Six, Clubs;)),
    ("cards!(King, Spades; Seven, Spades)", &[44,20], &cards!(King, Spades; Seven, Spades)),
    ("cards!(King, Spades; Seven, Hearts;)", &[44,21], &cards!(King, Spades; Seven, Hearts;)),
    ("cards!(King, Spades; Seven, Diamonds)", &[44,22], &cards!(King, Spades; Seven, Diamonds)),
    ("cards!(King, Spades; Seven, Clubs;)", &[44,23], &cards!(King, Spades; Seven, Clubs;)),
    ("cards!(King, Spades; Eight, Spades)", &[44,24], &cards!(King, Spades; Eight, Spades)),
    ("cards!(King, Spades; Eight, Hearts;)", &[44,25], &cards!(King, Spades; Eight, Hearts;)),
    ("cards!(King, Spades; Eight, Diamonds)", &[44,26], &cards!(King, Spades; Eight, Diamonds)),
    ("cards!(King, Spades; Eight, Clubs;)", &[44,27], &cards!(King, Spades; Eight, Clubs;)),
    ("cards!(King, Spades; Nine, Spades)", &[44,28], &cards!(King, Spades; Nine, Spades)),
    ("cards!(King, Spades; Nine, Hearts;)", &[44,29], &cards!(King, Spades; Nine, Hearts;)),
    ("cards!(King, Spades; Nine, Diamonds)", &[44,30], &cards!(King, Spades; Nine, Diamonds)),
    ("cards!(King, Spades; Nine, Clubs;)", &[44,31], &cards!(King, Spades; Nine, Clubs;)),
    ("cards!(King, Spades; Ten, Spades)", &[44,32], &cards!(King, Spades; Ten, Spades)),
    ("cards!(King, Spades; Ten, Hearts;)", &[44,33], &cards!(King, Spades; Ten, Hearts;)),
    ("cards!(King, Spades; Ten, Diamonds)", &[44,34], &cards!(King, Spades; Ten, Diamonds)),
    ("cards!(King, Spades; Ten, Clubs;)", &[44,35], &cards!(King, Spades; Ten, Clubs;)),
    ("cards!(King, Spades; Jack, Spades)", &[44,36], &cards!(King, Spades; Jack, Spades)),
    ("cards!(King, Spades; Jack, Hearts;)", &[44,37], &cards!(King, Spades; Jack, Hearts;)),
    ("cards!(King, Spades; Jack, Diamonds)", &[44,38], &cards!(King, Spades; Jack, Diamonds)),
    ("cards!(King, Spades; Jack, Clubs;)", &[44,39], &cards!(King, Spades; Jack, Clubs;)),
    ("cards!(King, Spades; Queen, Spades)", &[44,40], &cards!(King, Spades; Queen, Spades)),
    ("cards!(King, Spades; Queen, Hearts;)", &[44,41], &cards!(King, Spades; Queen, Hearts;)),
    ("cards!(King, Spades; Queen, Diamonds)", &[44,42], &cards!(King, Spades; Queen, Diamonds)),
    ("cards!(King, Spades; Queen, Clubs;)", &[44,43], &cards!(King, Spades; Queen, Clubs;)),
    ("cards!(King, Spades; King, Spades)", &[44,44], &cards!(King, Spades; King, Spades)),
    ("cards!(King, Spades; King, Hearts;)", &[44,45], &cards!(King, Spades; King, Hearts;)),
    ("cards!(King, Spades; King, Diamonds)", &[44,46], &cards!(King, Spades; King, Diamonds)),
    ("cards!(King, Spades; King, Clubs;)", &[44,47], &cards!(King, Spades; King, Clubs;)),
    ("cards!(King, Spades; Ace, Spades)", &[44,48], &cards!(King, Spades; Ace, Spades)),
    ("cards!(King, Spades; Ace, Hearts;)", &[44,49], &cards!(King, Spades; Ace, Hearts;)),
    ("cards!(King, Spades; Ace, Diamonds)", &[44,50], &cards!(King, Spades; Ace, Diamonds)),
    ("cards!(King, Spades; Ace, Clubs;)", &[44,51], &cards!(King, Spades; Ace, Clubs;)),
    ("cards!(King, Hearts; Two, Spades;)", &[45,0], &cards!(King, Hearts; Two, Spades;)),
    ("cards!(King, Hearts; Two, Hearts)", &[45,1], &cards!(King, Hearts; Two, Hearts)),
    ("cards!(King, Hearts; Two, Diamonds;)", &[45,2], &cards!(King, Hearts; Two, Diamonds;)),
    ("cards!(King, Hearts; Two, Clubs)", &[45,3], &cards!(King, Hearts; Two, Clubs)),
    ("cards!(King, Hearts; Three, Spades;)", &[45,4], &cards!(King, Hearts; Three, Spades;)),
    ("cards!(King, Hearts; Three, Hearts)", &[45,5], &cards!(King, Hearts; Three, Hearts)),
    ("cards!(King, Hearts; Three, Diamonds;)", &[45,6], &cards!(King, Hearts; Three, Diamonds;)),
    ("cards!(King, Hearts; Three, Clubs)", &[45,7], &cards!(King, Hearts; Three, Clubs)),
    ("cards!(King, Hearts; Four, Spades;)", &[45,8], &cards!(King, Hearts; Four, Spades;)),
    ("cards!(King, Hearts; Four, Hearts)", &[45,9], &cards!(King, Hearts; Four, Hearts)),
    ("cards!(King, Hearts; Four, Diamonds;)", &[45,10], &cards!(King, Hearts; Four, Diamonds;)),
    ("cards!(King, Hearts; Four, Clubs)", &[45,11], &cards!(King, Hearts; Four, Clubs)),
    ("cards!(King, Hearts; Five, Spades;)", &[45,12], &cards!(King, Hearts; Five, Spades;)),
    ("cards!(King, Hearts; Five, Hearts)", &[45,13], &cards!(King, Hearts; Five, Hearts)),
    ("cards!(King, Hearts; Five, Diamonds;)", &[45,14], &cards!(King, Hearts; Five, Diamonds;)),
    ("cards!(King, Hearts; Five, Clubs)", &[45,15], &cards!(King, Hearts; Five, Clubs)),
    ("cards!(King, Hearts; Six, Spades;)", &[45,16], &cards!(King, Hearts; Six, Spades;)),
    ("cards!(King, Hearts; Six, Hearts)", &[45,17], &cards!(King, Hearts; Six, Hearts)),
    ("cards!(King, Hearts; Six, Diamonds;)", &[45,18], &cards!(King, Hearts; Six, Diamonds;)),
    ("cards!(King, Hearts; Six, Clubs)", &[45,19], &cards!(King, Hearts; Six, Clubs)),
    ("cards!(King, Hearts; Seven, Spades;)", &[45,20], &cards!(King, Hearts; Seven, Spades;)),
    ("cards!(King, Hearts; Seven, Hearts)", &[45,21], &cards!(King, Hearts; Seven, Hearts)),
    ("cards!(King, Hearts; Seven, Diamonds;)", &[45,22], &cards!(King, Hearts; Seven, Diamonds;)),
    ("cards!(King, Hearts; Seven, Clubs)", &[45,23], &cards!(King, Hearts; Seven, Clubs)),
    ("cards!(King, Hearts; Eight, Spades;)", &[45,24], &cards!(King, Hearts; Eight, Spades;)),
    ("cards!(King, Hearts; Eight, Hearts)", &[45,25], &cards!(King, Hearts; Eight, Hearts)),
    ("cards!(King, Hearts; Eight, Diamonds;)", &[45,26], &cards!(King, Hearts; Eight, Diamonds;)),
    ("cards!(King, Hearts; Eight, Clubs)", &[45,27], &cards!(King, Hearts; Eight, Clubs)),
    ("cards!(King, Hearts; Nine, Spades;)", &[45,28], &cards!(King, Hearts; Nine, Spades;)),
    ("cards!(King, Hearts; Nine, Hearts)", &[45,29], &cards!(King, Hearts; Nine, Hearts)),
    ("cards!(King, Hearts; Nine, Diamonds;)", &[45,30], &cards!(King, Hearts; Nine, Diamonds;)),
    ("cards!(King, Hearts; Nine, Clubs)", &[45,31], &cards!(King, Hearts; Nine, Clubs)),
    ("cards!(King, Hearts; Ten, Spades;)", &[45,32], &cards!(King, Hearts; Ten, Spades;)),
    ("cards!(King, Hearts; Ten, Hearts)", &[45,33], &cards!(King, Hearts; Ten, Hearts)),
    ("cards!(King, Hearts; Ten, Diamonds;)", &[45,34], &cards!(King, Hearts; Ten, Diamonds;)),
    ("cards!(King, Hearts; Ten, Clubs)", &[45,35], &cards!(King, Hearts; Ten, Clubs)),
    ("cards!(King, Hearts; Jack, Spades;)", &[45,36], &cards!(King, Hearts; Jack, Spades;)),
    ("cards!(King, Hearts; Jack, Hearts)", &[45,37], &cards!(King, Hearts; Jack, Hearts)),
    ("cards!(King, Hearts; Jack, Diamonds;)", &[45,38], &cards!(King, Hearts; Jack, Diamonds;)),
    ("cards!(King, Hearts; Jack, Clubs)", &[45,39], &cards!(King, Hearts; Jack, Clubs)),
    ("cards!(King, Hearts; Queen, Spades;)", &[45,40], &cards!(King, Hearts; Queen, Spades;)),
    ("cards!(King, Hearts; Queen, Hearts)", &[45,41], &cards!(King, Hearts; Queen, Hearts)),
    ("cards!(King, Hearts; Queen, Diamonds;)", &[45,42], &cards!(King, Hearts; Queen, Diamonds;)),
    ("cards!(King, Hearts; Queen, Clubs)", &[45,43], &cards!(King, Hearts; Queen, Clubs)),
    ("cards!(King, Hearts; King, Spades;)", &[45,44], &cards!(King, Hearts; King, Spades;)),
    ("cards!(King, Hearts; King, Hearts)", &[45,45], &cards!(King, Hearts; King, Hearts)),
    ("cards!(King, Hearts; King, Diamonds;)", &[45,46], &cards!(King, Hearts; King, Diamonds;)),
    ("cards!(King, Hearts; King, Clubs)", &[45,47], &cards!(King, Hearts; King, Clubs)),
    ("cards!(King, Hearts; Ace, Spades;)", &[45,48], &cards!(King, Hearts; Ace, Spades;)),
    ("cards!(King, Hearts; Ace, Hearts)", &[45,49], &cards!(King, Hearts; Ace, Hearts)),
    ("cards!(King, Hearts; Ace, Diamonds;)", &[45,50], &cards!(King, Hearts; Ace, Diamonds;)),
    ("cards!(King, Hearts; Ace, Clubs)", &[45,51], &cards!(King, Hearts; Ace, Clubs)),
    ("cards!(King, Diamonds; Two, Spades)", &[46,0], &cards!(King, Diamonds; Two, Spades)),
    ("cards!(King, Diamonds; Two, Hearts;)", &[46,1], &cards!(King, Diamonds; Two, Hearts;)),
    ("cards!(King, Diamonds; Two, Diamonds)", &[46,2], &cards!(King, Diamonds; Two, Diamonds)),
    ("cards!(King, Diamonds; Two, Clubs;)", &[46,3], &cards!(King, Diamonds; Two, Clubs;)),
    ("cards!(King, Diamonds; Three, Spades)", &[46,4], &cards!(King, Diamonds; Three, Spades)),
    ("cards!(King, Diamonds; Three, Hearts;)", &[46,5], &cards!(King, Diamonds; Three, Hearts;)),
    ("cards!(King, Diamonds; Three, Diamonds)", &[46,6], &cards!(King, Diamonds; Three, Diamonds)),
    ("cards!(King, Diamonds; Three, Clubs;)", &[46,7], &cards!(King, Diamonds; Three, Clubs;)),
    ("cards!(King, Diamonds; Four, Spades)", &[46,8], &cards!(King, Diamonds; Four, Spades)),
    ("cards!(King, Diamonds; Four, Hearts;)", &[46,9], &cards!(King, Diamonds; Four, Hearts;)),
    ("cards!(King, Diamonds; Four, Diamonds)", &[46,10], &cards!(King, Diamonds; Four, Diamonds)),
    ("cards!(King, Diamonds; Four, Clubs;)", &[46,11], &cards!(King, Diamonds; Four, Clubs;)),
    ("cards!(King, Diamonds; Five, Spades)", &[46,12], &cards!(King, Diamonds; Five, Spades)),
    ("cards!(King, Diamonds; Five, Hearts;)", &[46,13], &cards!(King, Diamonds; Five, Hearts;)),
    ("cards!(King, Diamonds; Five, Diamonds)", &[46,14], &cards!(King, Diamonds; Five, Diamonds)),
    ("cards!(King, Diamonds; Five, Clubs;)", &[46,15], &cards!(King, Diamonds; Five, Clubs;)),
    ("cards!(King, Diamonds; Six, Spades)", &[46,16], &cards!(King, Diamonds; Six, Spades)),
    ("cards!(King, Diamonds; Six, Hearts;)", &[46,17], &cards!(King, Diamonds; Six, Hearts;)),
    ("cards!(King, Diamonds; Six, Diamonds)", &[46,18], &cards!(King, Diamonds; Six, Diamonds)),
    ("cards!(King, Diamonds; Six, Clubs;)", &[46,19], &cards!(King, Diamonds; Six, Clubs;)),
    ("cards!(King, Diamonds; Seven, Spades)", &[46,20], &cards!(King, Diamonds; Seven, Spades)),
    ("cards!(King, Diamonds; Seven, Hearts;)", &[46,21], &cards!(King, Diamonds; Seven, Hearts;)),
    ("cards!(King, Diamonds; Seven, Diamonds)", &[46,22], &cards!(King, Diamonds; Seven, Diamonds)),
    ("cards!(King, Diamonds; Seven, Clubs;)", &[46,23], &cards!(King, Diamonds; Seven, Clubs;)),
    ("cards!(King, Diamonds; Eight, Spades)", &[46,24], &cards!(King, Diamonds; Eight, Spades)),
    ("cards!(King, Diamonds; Eight, Hearts;)", &[46,25], &cards!(King, Diamonds; Eight, Hearts;)),
    ("cards!(King, Diamonds; Eight, Diamonds)", &[46,26], &cards!(King, Diamonds; Eight, Diamonds)),
    ("cards!(King, Diamonds; Eight, Clubs;)", &[46,27], &cards!(King, Diamonds; Eight, Clubs;)),
    ("cards!(King, Diamonds; Nine, Spades)", &[46,28], &cards!(King, Diamonds; Nine, Spades)),
    ("cards!(King, Diamonds; Nine, Hearts;)", &[46,29], &cards!(King, Diamonds; Nine, Hearts;)),
    ("cards!(King, Diamonds; Nine, Diamonds)", &[46,30], &cards!(King, Diamonds; Nine, Diamonds)),
    ("cards!(King, Diamonds; Nine, Clubs;)", &[46,31], &cards!(King, Diamonds; Nine, Clubs;)),
    ("cards!(King, Diamonds; Ten, Spades)", &[46,32], &cards!(King, Diamonds; Ten, Spades)),
    ("cards!(King, Diamonds; Ten, Hearts;)", &[46,33], &cards!(King, Diamonds; Ten, Hearts;)),
    ("cards!(King, Diamonds; Ten, Diamonds)", &[46,34], &cards!(King, Diamonds; Ten, Diamonds)),
    ("cards!(King, Diamonds; Ten, Clubs;)", &[46,35], &cards!(King, Diamonds; Ten, Clubs;)),
    ("cards!(King, Diamonds; Jack, Spades)", &[46,36], &cards!(King, Diamonds; Jack, Spades)),
    ("cards!(King, Diamonds; Jack, Hearts;)", &[46,37], &cards!(King, Diamonds; Jack, Hearts;)),
    ("cards!(King, Diamonds; Jack, Diamonds)", &[46,38], &cards!(King, Diamonds; Jack, Diamonds)),
    ("cards!(King, Diamonds; Jack, Clubs;)", &[46,39], &cards!(King, Diamonds; Jack, Clubs;)),
    ("cards!(King, Diamonds; Queen, Spades)", &[46,40], &cards!(King, Diamonds; Queen, Spades)),
    ("cards!(King, Diamonds; Queen, Hearts;)", &[46,41], &cards!(King, Diamonds; Queen, Hearts;)),
    ("cards!(King, Diamonds; Queen, Diamonds)", &[46,42], &cards!(King, Diamonds; Queen, Diamonds)),
    ("cards!(King, Diamonds; Queen, Clubs;)", &[46,43], &cards!(King, Diamonds; Queen, Clubs;)),
    ("cards!(King, Diamonds; King, Spades)", &[46,44], &cards!(King, Diamonds; King, Spades)),
    ("cards!(King, Diamonds; King, Hearts;)", &[46,45], &cards!(King, Diamonds; King, Hearts;)),
    ("cards!(King, Diamonds; King, Diamonds)", &[46,46], &cards!(King, Diamonds; King, Diamonds)),
    ("cards!(King, Diamonds; King, Clubs;)", &[46,47], &cards!(King, Diamonds; King, Clubs;)),
    ("cards!(King, Diamonds; Ace, Spades)", &[46,48], &cards!(King, Diamonds; Ace, Spades)),
    ("cards!(King, Diamonds; Ace, Hearts;)", &[46,49], &cards!(King, Diamonds; Ace, Hearts;)),
    ("cards!(King, Diamonds; Ace, Diamonds)", &[46,50], &cards!(King, Diamonds; Ace, Diamonds)),
    ("cards!(King, Diamonds; Ace, Clubs;)", &[46,51], &cards!(King, Diamonds; Ace, Clubs;)),
    ("cards!(King, Clubs; Two, Spades;)", &[47,0], &cards!(King, Clubs; Two, Spades;)),
    ("cards!(King, Clubs; Two, Hearts)", &[47,1], &cards!(King, Clubs; Two, Hearts)),
    ("cards!(King, Clubs; Two, Diamonds;)", &[47,2], &cards!(King, Clubs; Two, Diamonds;)),
    ("cards!(King, Clubs; Two, Clubs)", &[47,3], &cards!(King, Clubs; Two, Clubs)),
    ("cards!(King, Clubs; Three, Spades;)", &[47,4], &cards!(King, Clubs; Three, Spades;)),
    ("cards!(King, Clubs; Three, Hearts)", &[47,5], &cards!(King, Clubs; Three, Hearts)),
    ("cards!(King, Clubs; Three, Diamonds;)", &[47,6], &cards!(King, Clubs; Three, Diamonds;)),
    ("cards!(King, Clubs; Three, Clubs)", &[47,7], &cards!(King, Clubs; Three, Clubs)),
    ("cards!(King, Clubs; Four, Spades;)", &[47,8], &cards!(King, Clubs; Four, Spades;)),
    ("cards!(King, Clubs; Four, Hearts)", &[47,9], &cards!(King, Clubs; Four, Hearts)),
    ("cards!(King, Clubs; Four, Diamonds;)", &[47,10], &cards!(King, Clubs; Four, Diamonds;)),
    ("cards!(King, Clubs; Four, Clubs)", &[47,11], &cards!(King, Clubs; Four, Clubs)),
    ("cards!(King, Clubs; Five, Spades;)", &[47,12], &cards!(King, Clubs; Five, Spades;)),
    ("cards!(King, Clubs; Five, Hearts)", &[47,13], &cards!(King, Clubs; Five, Hearts)),
    ("cards!(King, Clubs; Five, Diamonds;)", &[47,14], &cards!(King, Clubs; Five, Diamonds;)),
    ("cards!(King, Clubs; Five, Clubs)", &[47,15], &cards!(King, Clubs; Five, Clubs)),
    ("cards!(King, Clubs; Six, Spades;)", &[47,16], &cards!(King, Clubs; Six, Spades;)),
    ("cards!(King, Clubs; Six, Hearts)", &[47,17], &cards!(King, Clubs; Six, Hearts)),
    ("cards!(King, Clubs; Six, Diamonds;)", &[47,18], &cards!(King, Clubs; Six, Diamonds;)),
    ("cards!(King, Clubs; Six, Clubs)", &[47,19], &cards!(King, Clubs; Six, Clubs)),
    ("cards!(King, Clubs; Seven, Spades;)", &[47,20], &cards!(King, Clubs; Seven, Spades;)),
    ("cards!(King, Clubs; Seven, Hearts)", &[47,21], &cards!(King, Clubs; Seven, Hearts)),
    ("cards!(King, Clubs; Seven, Diamonds;)", &[47,22], &cards!(King, Clubs; Seven, Diamonds;)),
    ("cards!(King, Clubs; Seven, Clubs)", &[47,23], &cards!(King, Clubs; Seven, Clubs)),
    ("cards!(King, Clubs; Eight, Spades;)", &[47,24], &cards!(King, Clubs; Eight, Spades;)),
    ("cards!(King, Clubs; Eight, Hearts)", &[47,25], &cards!(King, Clubs; Eight, Hearts)),
    ("cards!(King, Clubs; Eight, Diamonds;)", &[47,26], &cards!(King, Clubs; Eight, Diamonds;)),
    ("cards!(King, Clubs; Eight, Clubs)", &[47,27], &cards!(King, Clubs; Eight, Clubs)),
    ("cards!(King, Clubs; Nine, Spades;)", &[47,28], &cards!(King, Clubs; Nine, Spades;)),
    ("cards!(King, Clubs; Nine, Hearts)", &[47,29], &cards!(King, Clubs; Nine, Hearts)),
    ("cards!(King, Clubs; Nine, Diamonds;)", &[47,30], &cards!(King, Clubs; Nine, Diamonds;)),
    ("cards!(King, Clubs; Nine, Clubs)", &[47,31], &cards!(King, Clubs; Nine, Clubs)),
    ("cards!(King, Clubs; Ten, Spades;)", &[47,32], &cards!(King, Clubs; Ten, Spades;)),
    ("cards!(King, Clubs; Ten, Hearts)", &[47,33], &cards!(King, Clubs; Ten, Hearts)),
    ("cards!(King, Clubs; Ten, Diamonds;)", &[47,34], &cards!(King, Clubs; Ten, Diamonds;)),
    ("cards!(King, Clubs; Ten, Clubs)", &[47,35], &cards!(King, Clubs; Ten, Clubs)),
    ("cards!(King, Clubs; Jack, Spades;)", &[47,36], &cards!(King, Clubs; Jack, Spades;)),
    ("cards!(King, Clubs; Jack, Hearts)", &[47,37], &cards!(King, Clubs; Jack, Hearts)),
    ("cards!(King, Clubs; Jack, Diamonds;)", &[47,38], &cards!(King, Clubs; Jack, Diamonds;)),
    ("cards!(King, Clubs; Jack, Clubs)", &[47,39], &cards!(King, Clubs; Jack, Clubs)),
    ("cards!(King, Clubs; Queen, Spades;)", &[47,40], &cards!(King, Clubs; Queen, Spades;)),
    ("cards!(King, Clubs; Queen, Hearts)", &[47,41], &cards!(King, Clubs; Queen, Hearts)),
    ("cards!(King, Clubs; Queen, Diamonds;)", &[47,42], &cards!(King, Clubs; Queen, Diamonds;)),
    ("cards!(King, Clubs; Queen, Clubs)", &[47,43], &cards!(King, Clubs; Queen, Clubs)),
    ("cards!(King, Clubs; King, Spades;)", &[47,44], &cards!(King, Clubs; King, Spades;)),
    ("cards!(King, Clubs; King, Hearts)", &[47,45], &cards!(King, Clubs; King, Hearts)),
    ("cards!(King, Clubs; King, Diamonds;)", &[47,46], &cards!(King, Clubs; King, Diamonds;)),
    ("cards!(King, Clubs; King, Clubs)", &[47,47], &cards!(King, Clubs; King, Clubs)),
    ("cards!(King, Clubs; Ace, Spades;)", &[47,48], &cards!(King, Clubs; Ace, Spades;)),
    ("cards!(King, Clubs; Ace, Hearts)", &[47,49], &cards!(King, Clubs; Ace, Hearts)),
    ("cards!(King, Clubs; Ace, Diamonds;)", &[47,50], &cards!(King, Clubs; Ace, Diamonds;)),
    ("cards!(King, Clubs; Ace, Clubs)", &[47,51], &cards!(King, Clubs; Ace, Clubs)),
    ("cards!(Ace, Spades; Two, Spades)", &[48,0], &cards!(Ace, Spades; Two, Spades)),
    ("cards!(Ace, Spades; Two, Hearts;)", &[48,1], &cards!(Ace, Spades; Two, Hearts;)),
    ("cards!(Ace, Spades; Two, Diamonds)", &[48,2], &cards!(Ace, Spades; Two, Diamonds)),
    ("cards!(Ace, Spades; Two, Clubs;)", &[48,3], &cards!(Ace, Spades; Two, Clubs;)),
    ("cards!(Ace, Spades; Three, Spades)", &[48,4], &cards!(Ace, Spades; Three, Spades)),
    ("cards!(Ace, Spades; Three, Hearts;)", &[48,5], &cards!(Ace, Spades; Three, Hearts;)),
    ("cards!(Ace, Spades; Three, Diamonds)", &[48,6], &cards!(Ace, Spades; Three, Diamonds)),
    ("cards!(Ace, Spades; Three, Clubs;)", &[48,7], &cards!(Ace, Spades; Three, Clubs;)),
    ("cards!(Ace, Spades; Four, Spades)", &[48,8], &cards!(Ace, Spades; Four, Spades)),
    ("cards!(Ace, Spades; Four, Hearts;)", &[48,9], &cards!(Ace, Spades; Four, Hearts;)),
    ("cards!(Ace, Spades; Four, Diamonds)", &[48,10], &cards!(Ace, Spades; Four, Diamonds)),
    ("cards!(Ace, Spades; Four, Clubs;)", &[48,11], &cards!(Ace, Spades; Four, Clubs;)),
    ("cards!(Ace, Spades; Five, Spades)", &[48,12], &cards!(Ace, Spades; Five, Spades)),
    ("cards!(Ace, Spades; Five, Hearts;)", &[48,13], &cards!(Ace, Spades; Five, Hearts;)),
    ("cards!(Ace, Spades; Five, Diamonds)", &[48,14], &cards!(Ace, Spades; Five, Diamonds)),
    ("cards!(Ace, Spades; Five, Clubs;)", &[48,15], &cards!(Ace, Spades; Five, Clubs;)),
    ("cards!(Ace, Spades; Six, Spades)", &[48,16], &cards!(Ace, Spades; Six, Spades)),
    ("cards!(Ace, Spades; Six, Hearts;)", &[48,17], &cards!(Ace, Spades; Six, Hearts;)),
    ("cards!(Ace, Spades; Six, Diamonds)", &[48,18], &cards!(Ace, Spades; Six, Diamonds)),
    ("cards!(Ace, Spades; Six, Clubs;)", &[48,19], &cards!(Ace, Spades; Six, Clubs;)),
    ("cards!(Ace, Spades; Seven, Spades)", &[48,20], &cards!(Ace, Spades; Seven, Spades)),
    ("cards!(Ace, Spades; Seven, Hearts;)", &[48,21], &cards!(Ace, Spades; Seven, Hearts;)),
    ("cards!(Ace, Spades; Seven, Diamonds)", &[48,22], &cards!(Ace, Spades; Seven, Diamonds)),
    ("cards!(Ace, Spades; Seven, Clubs;)", &[48,23], &cards!(Ace, Spades; Seven, Clubs;)),
    ("cards!(Ace, Spades; Eight, Spades)", &[48,24], &cards!(Ace, Spades; Eight, Spades)),
    ("cards!(Ace, Spades; Eight, Hearts;)", &[48,25], &cards!(Ace, Spades; Eight, Hearts;)),
    ("cards!(Ace, Spades; Eight, Diamonds)", &[48,26], &cards!(Ace, Spades; Eight, Diamonds)),
    ("cards!(Ace, Spades; Eight, Clubs;)", &[48,27], &cards!(Ace, Spades; Eight, Clubs;)),
    ("cards!(Ace, Spades; Nine, Spades)", &[48,28], &cards!(Ace, Spades; Nine, Spades)),
    ("cards!(Ace, Spades; Nine, Hearts;)", &[48,29], &cards!(Ace, Spades; Nine, Hearts;)),
    ("cards!(Ace, Spades; Nine, Diamonds)", &[48,30], &cards!(Ace, Spades; Nine, Diamonds)),
    ("cards!(Ace, Spades; Nine, Clubs;)", &[48,31], &cards!(Ace, Spades; Nine, Clubs;)),
    ("cards!(Ace, Spades; Ten, Spades)", &[48,32], &cards!(Ace, Spades; Ten, Spades)),
    ("cards!(Ace, Spades; Ten, Hearts;)", &[48,33], &cards!(Ace, Spades; Ten, Hearts;)),
    ("cards!(Ace, Spades; Ten, Diamonds)", &[48,34], &cards!(Ace, Spades; Ten, Diamonds)),
    ("cards!(Ace, Spades; Ten, Clubs;)", &[48,35], &cards!(Ace, Spades; Ten, Clubs;)),
    ("cards!(Ace, Spades; Jack, Spades)", &[48,36], &cards!(Ace, Spades; Jack, Spades)),
    ("cards!(Ace, Spades; Jack, Hearts;)", &[48,37], &cards!(Ace, Spades; Jack, Hearts;)),
    ("cards!(Ace, Spades; Jack, Diamonds)", &[48,38], &cards!(Ace, Spades; Jack, Diamonds)),
    ("cards!(Ace, Spades; Jack, Clubs;)", &[48,39], &cards!(Ace, Spades; Jack, Clubs;)),
    ("cards!(Ace, Spades; Queen, Spades)", &[48,40], &cards!(Ace, Spades; Queen, Spades)),
    ("cards!(Ace, Spades; Queen, Hearts;)", &[48,41], &cards!(Ace, Spades; Queen, Hearts;)),
    ("cards!(Ace, Spades; Queen, Diamonds)", &[48,42], &cards!(Ace, Spades; Queen, Diamonds)),
    ("cards!(Ace, Spades; Queen, Clubs;)", &[48,43], &cards!(Ace, Spades; Queen, Clubs;)),
    ("cards!(Ace, Spades; King, Spades)", &[48,44], &cards!(Ace, Spades; King, Spades)),
    ("cards!(Ace, Spades; King, Hearts;)", &[48,45], &cards!(Ace, Spades; King, Hearts;)),
    ("cards!(Ace, Spades; King, Diamonds)", &[48,46], &cards!(Ace, Spades; King, Diamonds)),
    ("cards!(Ace, Spades; King, Clubs;)", &[48,47], &cards!(Ace, Spades; King, Clubs;)),
    ("cards!(Ace, Spades; Ace, Spades)", &[48,48], &cards!(Ace, Spades; Ace, Spades)),
    ("cards!(Ace, Spades; Ace, Hearts;)", &[48,49], &cards!(Ace, Spades; Ace, Hearts;)),
    ("cards!(Ace, Spades; Ace, Diamonds)", &[48,50], &cards!(Ace, Spades; Ace, Diamonds)),
    ("cards!(Ace, Spades; Ace, Clubs;)", &[48,51], &cards!(Ace, Spades; Ace, Clubs;)),
    ("cards!(Ace, Hearts; Two, Spades;)", &[49,0], &cards!(Ace, Hearts; Two, Spades;)),
    ("cards!(Ace, Hearts; Two, Hearts)", &[49,1], &cards!(Ace, Hearts; Two, Hearts)),
    ("cards!(Ace, Hearts; Two, Diamonds;)", &[49,2], &cards!(Ace, Hearts; Two, Diamonds;)),
    ("cards!(Ace, Hearts; Two, Clubs)", &[49,3], &cards!(Ace, Hearts; Two, Clubs)),
    ("cards!(Ace, Hearts; Three, Spades;)", &[49,4], &cards!(Ace, Hearts; Three, Spades;)),
    ("cards!(Ace, Hearts; Three, Hearts)", &[49,5], &cards!(Ace, Hearts; Three, Hearts)),
    ("cards!(Ace, Hearts; Three, Diamonds;)", &[49,6], &cards!(Ace, Hearts; Three, Diamonds;)),
    ("cards!(Ace, Hearts; Three, Clubs)", &[49,7], &cards!(Ace, Hearts; Three, Clubs)),
    ("cards!(Ace, Hearts; Four, Spades;)", &[49,8], &cards!(Ace, Hearts; Four, Spades;)),
    ("cards!(Ace, Hearts; Four, Hearts)", &[49,9], &cards!(Ace, Hearts; Four, Hearts)),
    ("cards!(Ace, Hearts; Four, Diamonds;)", &[49,10], &cards!(Ace, Hearts; Four, Diamonds;)),
    ("cards!(Ace, Hearts; Four, Clubs)", &[49,11], &cards!(Ace, Hearts; Four, Clubs)),
    ("cards!(Ace, Hearts; Five, Spades;)", &[49,12], &cards!(Ace, Hearts; Five, Spades;)),
    ("cards!(Ace, Hearts; Five, Hearts)", &[49,13], &cards!(Ace, Hearts; Five, Hearts)),
    ("cards!(Ace, Hearts; Five, Diamonds;)", &[49,14], &cards!(Ace, Hearts; Five, Diamonds;)),
    ("cards!(Ace, Hearts; Five, Clubs)", &[49,15], &cards!(Ace, Hearts; Five, Clubs)),
    ("cards!(Ace, Hearts; Six, Spades;)", &[49,16], &cards!(Ace, Hearts; Six, Spades;)),
    ("cards!(Ace, Hearts; Six, Hearts)", &[49,17], &cards!(Ace, Hearts; Six, Hearts)),
    ("cards!(Ace, Hearts; Six, Diamonds;)", &[49,18], &cards!(Ace, Hearts; Six, Diamonds;)),
    ("cards!(Ace, Hearts; Six, Clubs)", &[49,19], &cards!(Ace, Hearts; Six, Clubs)),
    ("cards!(Ace, Hearts; Seven, Spades;)", &[49,20], &cards!(Ace, Hearts; Seven, Spades;)),
    ("cards!(Ace, Hearts; Seven, Hearts)", &[49,21], &cards!(Ace, Hearts; Seven, Hearts)),
    ("cards!(Ace, Hearts; Seven, Diamonds;)", &[49,22], &cards!(Ace, Hearts; Seven, Diamonds;)),
    ("cards!(Ace, Hearts; Seven, Clubs)", &[49,23], &cards!(Ace, Hearts; Seven, Clubs)),
    ("cards!(Ace, Hearts; Eight, Spades;)", &[49,24], &cards!(Ace, Hearts; Eight, Spades;)),
    ("cards!(Ace, Hearts; Eight, Hearts)", &[49,25], &cards!(Ace, Hearts; Eight, Hearts)),
    ("cards!(Ace, Hearts; Eight, Diamonds;)", &[49,26], &cards!(Ace, Hearts; Eight, Diamonds;)),
    ("cards!(Ace, Hearts; Eight, Clubs)", &[49,27], &cards!(Ace, Hearts; Eight, Clubs)),
    ("cards!(Ace, Hearts; Nine, Spades;)", &[49,28], &cards!(Ace, Hearts; Nine, Spades;)),
    ("cards!(Ace, Hearts; Nine, Hearts)", &[49,29], &cards!(Ace, Hearts; Nine, Hearts)),
    ("cards!(Ace, Hearts; Nine, Diamonds;)", &[49,30], &cards!(Ace, Hearts; Nine, Diamonds;)),
    ("cards!(Ace, Hearts; Nine, Clubs)", &[49,31], &cards!(Ace, Hearts; Nine, Clubs)),
    ("cards!(Ace, Hearts; Ten, Spades;)", &[49,32], &cards!(Ace, Hearts; Ten, Spades;)),
    ("cards!(Ace, Hearts; Ten, Hearts)", &[49,33], &cards!(Ace, Hearts; Ten, Hearts)),
    ("cards!(Ace, Hearts; Ten, Diamonds;)", &[49,34], &cards!(Ace, Hearts; Ten, Diamonds;)),
    ("cards!(Ace, Hearts; Ten, Clubs)", &[49,35], &cards!(Ace, Hearts; Ten, Clubs)),
    ("cards!(Ace, Hearts; Jack, Spades;)", &[49,36], &cards!(Ace, Hearts; Jack, Spades;)),
    ("cards!(Ace, Hearts; Jack, Hearts)", &[49,37], &cards!(Ace, Hearts; Jack, Hearts)),
    ("cards!(Ace, Hearts; Jack, Diamonds;)", &[49,38], &cards!(Ace, Hearts; Jack, Diamonds;)),
    ("cards!(Ace, Hearts; Jack, Clubs)", &[49,39], &cards!(Ace, Hearts; Jack, Clubs)),
    ("cards!(Ace, Hearts; Queen, Spades;)", &[49,40], &cards!(Ace, Hearts; Queen, Spades;)),
    ("cards!(Ace, Hearts; Queen, Hearts)", &[49,41], &cards!(Ace, Hearts; Queen, Hearts)),
    ("cards!(Ace, Hearts; Queen, Diamonds;)", &[49,42], &cards!(Ace, Hearts; Queen, Diamonds;)),
    ("cards!(Ace, Hearts; Queen, Clubs)", &[49,43], &cards!(Ace, Hearts; Queen, Clubs)),
    ("cards!(Ace, Hearts; King, Spades;)", &[49,44], &cards!(Ace, Hearts; King, Spades;)),
    ("cards!(Ace, Hearts; King, Hearts)", &[49,45], &cards!(Ace, Hearts; King, Hearts)),
    ("cards!(Ace, Hearts; King, Diamonds;)", &[49,46], &cards!(Ace, Hearts; King, Diamonds;)),
    ("cards!(Ace, Hearts; King, Clubs)", &[49,47], &cards!(Ace, Hearts; King, Clubs)),
    ("cards!(Ace, Hearts; Ace, Spades;)", &[49,48], &cards!(Ace, Hearts; Ace, Spades;)),
    ("cards!(Ace, Hearts; Ace, Hearts)", &[49,49], &cards!(Ace, Hearts; Ace, Hearts)),
    ("cards!(Ace, Hearts; Ace, Diamonds;)", &[49,50], &cards!(Ace, Hearts; Ace, Diamonds;)),
    ("cards!(Ace, Hearts; Ace, Clubs)", &[49,51], &cards!(Ace, Hearts; Ace, Clubs)),
    ("cards!(Ace, Diamonds; Two, Spades)", &[50,0], &cards!(Ace, Diamonds; Two, Spades)),
    ("cards!(Ace, Diamonds; Two, Hearts;)", &[50,1], &cards!(Ace, Diamonds; Two, Hearts;)),
    ("cards!(Ace, Diamonds; Two, Diamonds)", &[50,2], &cards!(Ace, Diamonds; Two, Diamonds)),
    ("cards!(Ace, Diamonds; Two, Clubs;)", &[50,3], &cards!(Ace, Diamonds; Two, Clubs;)),
    ("cards!(Ace, Diamonds; Three, Spades)", &[50,4], &cards!(Ace, Diamonds; Three, Spades)),
    ("cards!(Ace, Diamonds; Three, Hearts;)", &[50,5], &cards!(Ace, Diamonds; Three, Hearts;)),
    ("cards!(Ace, Diamonds; Three, Diamonds)", &[50,6], &cards!(Ace, Diamonds; Three, Diamonds)),
    ("cards!(Ace, Diamonds; Three, Clubs;)", &[50,7], &cards!(Ace, Diamonds; Three, Clubs;)),
    ("cards!(Ace, Diamonds; Four, Spades)", &[50,8], &cards!(Ace, Diamonds; Four, Spades)),
    ("cards!(Ace, Diamonds; Four, Hearts;)", &[50,9], &cards!(Ace, Diamonds; Four, Hearts;)),
    ("cards!(Ace, Diamonds; Four, Diamonds)", &[50,10], &cards!(Ace, Diamonds; Four, Diamonds)),
    ("cards!(Ace, Diamonds; Four, Clubs;)", &[50,11], &cards!(Ace, Diamonds; Four, Clubs;)),
    ("cards!(Ace, Diamonds; Five, Spades)", &[50,12], &cards!(Ace, Diamonds; Five, Spades)),
    ("cards!(Ace, Diamonds; Five, Hearts;)", &[50,13], &cards!(Ace, Diamonds; Five, Hearts;)),
    ("cards!(Ace, Diamonds; Five, Diamonds)", &[50,14], &cards!(Ace, Diamonds; Five, Diamonds)),
    ("cards!(Ace, Diamonds; Five, Clubs;)", &[50,15], &cards!(Ace, Diamonds; Five, Clubs;)),
    ("cards!(Ace, Diamonds; Six, Spades)", &[50,16], &cards!(Ace, Diamonds; Six, Spades)),
    ("cards!(Ace, Diamonds; Six, Hearts;)", &[50,17], &cards!(Ace, Diamonds; Six, Hearts;)),
    ("cards!(Ace, Diamonds; Six, Diamonds)", &[50,18], &cards!(Ace, Diamonds; Six, Diamonds)),
    ("cards!(Ace, Diamonds; Six, Clubs;)", &[50,19], &cards!(Ace, Diamonds; Six, Clubs;)),
    ("cards!(Ace, Diamonds; Seven, Spades)", &[50,20], &cards!(Ace, Diamonds; Seven, Spades)),
    ("cards!(Ace, Diamonds; Seven, Hearts;)", &[50,21], &cards!(Ace, Diamonds; Seven, Hearts;)),
    ("cards!(Ace, Diamonds; Seven, Diamonds)", &[50,22], &cards!(Ace, Diamonds; Seven, Diamonds)),
    ("cards!(Ace, Diamonds; Seven, Clubs;)", &[50,23], &cards!(Ace, Diamonds; Seven, Clubs;)),
    ("cards!(Ace, Diamonds; Eight, Spades)", &[50,24], &cards!(Ace, Diamonds; Eight, Spades)),
    ("cards!(Ace, Diamonds; Eight, Hearts;)", &[50,25], &cards!(Ace, Diamonds; Eight, Hearts;)),
    ("cards!(Ace, Diamonds; Eight, Diamonds)", &[50,26], &cards!(Ace, Diamonds; Eight, Diamonds)),
    ("cards!(Ace, Diamonds; Eight, Clubs;)", &[50,27], &cards!(Ace, Diamonds; Eight, Clubs;)),
    ("cards!(Ace, Diamonds; Nine, Spades)", &[50,28], &cards!(Ace, Diamonds; Nine, Spades)),
    ("cards!(Ace, Diamonds; Nine, Hearts;)", &[50,29], &cards!(Ace, Diamonds; Nine, Hearts;)),
    ("cards!(Ace, Diamonds; Nine, Diamonds)", &[50,30], &cards!(Ace, Diamonds; Nine, Diamonds)),
    ("cards!(Ace, Diamonds; Nine, Clubs;)", &[50,31], &cards!(Ace, Diamonds; Nine, Clubs;)),
    ("cards!(Ace, Diamonds; Ten, Spades)", &[50,32], &cards!(Ace, Diamonds; Ten, Spades)),
    ("cards!(Ace, Diamonds; Ten, Hearts;)", &[50,33], &cards!(Ace, Diamonds; Ten, Hearts;)),
    ("cards!(Ace, Diamonds; Ten, Diamonds)", &[50,34], &cards!(Ace, Diamonds; Ten, Diamonds)),
    ("cards!(Ace, Diamonds; Ten, Clubs;)", &[50,35], &cards!(Ace, Diamonds; Ten, Clubs;)),
    ("cards!(Ace, Diamonds; Jack, Spades)", &[50,36], &cards!(Ace, Diamonds; Jack, Spades)),
    ("cards!(Ace, Diamonds; Jack, Hearts;)", &[50,37], &cards!(Ace, Diamonds; Jack, Hearts;)),
    ("cards!(Ace, Diamonds; Jack, Diamonds)", &[50,38], &cards!(Ace, Diamonds; Jack, Diamonds)),
    ("cards!(Ace, Diamonds; Jack, Clubs;)", &[50,39], &cards!(Ace, Diamonds; Jack, Clubs;)),
    ("cards!(Ace, Diamonds; Queen, Spades)", &[50,40], &cards!(Ace, Diamonds; Queen, Spades)),
    ("cards!(Ace, Diamonds; Queen, Hearts;)", &[50,41], &cards!(Ace, Diamonds; Queen, Hearts;)),
    ("cards!(Ace, Diamonds; Queen, Diamonds)", &[50,42], &cards!(Ace, Diamonds; Queen, Diamonds)),
    ("cards!(Ace, Diamonds; Queen, Clubs;)", &[50,43], &cards!(Ace, Diamonds; Queen, Clubs;)),
    ("cards!(Ace, Diamonds; King, Spades)", &[50,44], &cards!(Ace, Diamonds; King, Spades)),
    ("cards!(Ace, Diamonds; King, Hearts;)", &[50,45], &cards!(Ace, Diamonds; King, Hearts;)),
    ("cards!(Ace, Diamonds; King, Diamonds)", &[50,46], &cards!(Ace, Diamonds; King, Diamonds)),
    ("cards!(Ace, Diamonds; King, Clubs;)", &[50,47], &cards!(Ace, Diamonds; King, Clubs;)),
    ("cards!(Ace, Diamonds; Ace, Spades)", &[50,48], &cards!(Ace, Diamonds; Ace, Spades)),
    ("cards!(Ace, Diamonds; Ace, Hearts;)", &[50,49], &cards!(Ace, Diamonds; Ace, Hearts;)),
    ("cards!(Ace, Diamonds; Ace, Diamonds)", &[50,50], &cards!(Ace, Diamonds; Ace, Diamonds)),
    ("cards!(Ace, Diamonds; Ace, Clubs;)", &[50,51], &cards!(Ace, Diamonds; Ace, Clubs;)),
    ("cards!(Ace, Clubs; Two, Spades;)", &[51,0], &cards!(Ace, Clubs; Two, Spades;)),
    ("cards!(Ace, Clubs; Two, Hearts)", &[51,1], &cards!(Ace, Clubs; Two, Hearts)),
    ("cards!(Ace, Clubs; Two, Diamonds;)", &[51,2], &cards!(Ace, Clubs; Two, Diamonds;)),
    ("cards!(Ace, Clubs; Two, Clubs)", &[51,3], &cards!(Ace, Clubs; Two, Clubs)),
    ("cards!(Ace, Clubs; Three, Spades;)", &[51,4], &cards!(Ace, Clubs; Three, Spades;)),
    ("cards!(Ace, Clubs; Three, Hearts)", &[51,5], &cards!(Ace, Clubs; Three, Hearts)),
    ("cards!(Ace, Clubs; Three, Diamonds;)", &[51,6], &cards!(Ace, Clubs; Three, Diamonds;)),
    ("cards!(Ace, Clubs; Three, Clubs)", &[51,7], &cards!(Ace, Clubs; Three, Clubs)),
    ("cards!(Ace, Clubs; Four, Spades;)", &[51,8], &cards!(Ace, Clubs; Four, Spades;)),
    ("cards!(Ace, Clubs; Four, Hearts)", &[51,9], &cards!(Ace, Clubs; Four, Hearts)),
    ("cards!(Ace, Clubs; Four, Diamonds;)", &[51,10], &cards!(Ace, Clubs; Four, Diamonds;)),
    ("cards!(Ace, Clubs; Four, Clubs)", &[51,11], &cards!(Ace, Clubs; Four, Clubs)),
    ("cards!(Ace, Clubs; Five, Spades;)", &[51,12], &cards!(Ace, Clubs; Five, Spades;)),
    ("cards!(Ace, Clubs; Five, Hearts)", &[51,13], &cards!(Ace, Clubs; Five, Hearts)),
    ("cards!(Ace, Clubs; Five, Diamonds;)", &[51,14], &cards!(Ace, Clubs; Five, Diamonds;)),
    ("cards!(Ace, Clubs; Five, Clubs)", &[51,15], &cards!(Ace, Clubs; Five, Clubs)),
    ("cards!(Ace, Clubs; Six, Spades;)", &[51,16], &cards!(Ace, Clubs; Six, Spades;)),
    ("cards!(Ace, Clubs; Six, Hearts)", &[51,17], &cards!(Ace, Clubs; Six, Hearts)),
    ("cards!(Ace, Clubs; Six, Diamonds;)", &[51,18], &cards!(Ace, Clubs; Six, Diamonds;)),
    ("cards!(Ace, Clubs; Six, Clubs)", &[51,19], &cards!(Ace, Clubs; Six, Clubs)),
    ("cards!(Ace, Clubs; Seven, Spades;)", &[51,20], &cards!(Ace, Clubs; Seven, Spades;)),
    ("cards!(Ace, Clubs; Seven, Hearts)", &[51,21], &cards!(Ace, Clubs; Seven, Hearts)),
    ("cards!(Ace, Clubs; Seven, Diamonds;)", &[51,22], &cards!(Ace, Clubs; Seven, Diamonds;)),
    ("cards!(Ace, Clubs; Seven, Clubs)", &[51,23], &cards!(Ace, Clubs; Seven, Clubs)),
    ("cards!(Ace, Clubs; Eight, Spades;)", &[51,24], &cards!(Ace, Clubs; Eight, Spades;)),
    ("cards!(Ace, Clubs; Eight, Hearts)", &[51,25], &cards!(Ace, Clubs; Eight, Hearts)),
    ("cards!(Ace, Clubs; Eight, Diamonds;)", &[51,26], &cards!(Ace, Clubs; Eight, Diamonds;)),
    ("cards!(Ace, Clubs; Eight, Clubs)", &[51,27], &cards!(Ace, Clubs; Eight, Clubs)),
    ("cards!(Ace, Clubs; Nine, Spades;)", &[51,28], &cards!(Ace, Clubs; Nine, Spades;)),
    ("cards!(Ace, Clubs; Nine, Hearts)", &[51,29], &cards!(Ace, Clubs; Nine, Hearts)),
    ("cards!(Ace, Clubs; Nine, Diamonds;)", &[51,30], &cards!(Ace, Clubs; Nine, Diamonds;)),
    ("cards!(Ace, Clubs; Nine, Clubs)", &[51,31], &cards!(Ace, Clubs; Nine, Clubs)),
    ("cards!(Ace, Clubs; Ten, Spades;)", &[51,32], &cards!(Ace, Clubs; Ten, Spades;)),
    ("cards!(Ace, Clubs; Ten, Hearts)", &[51,33], &cards!(Ace, Clubs; Ten, Hearts)),
    ("cards!(Ace, Clubs; Ten, Diamonds;)", &[51,34], &cards!(Ace, Clubs; Ten, Diamonds;)),
    ("cards!(Ace, Clubs; Ten, Clubs)", &[51,35], &cards!(Ace, Clubs; Ten, Clubs)),
    ("cards!(Ace, Clubs; Jack, Spades;)", &[51,36], &cards!(Ace, Clubs; Jack, Spades;)),
    ("cards!(Ace, Clubs; Jack, Hearts)", &[51,37], &cards!(Ace, Clubs; Jack, Hearts)),
    ("cards!(Ace, Clubs; Jack, Diamonds;)", &[51,38], &cards!(Ace, Clubs; Jack, Diamonds;)),
    ("cards!(Ace, Clubs; Jack, Clubs)", &[51,39], &cards!(Ace, Clubs; Jack, Clubs)),
    ("cards!(Ace, Clubs; Queen, Spades;)", &[51,40], &cards!(Ace, Clubs; Queen, Spades;)),
    ("cards!(Ace, Clubs; Queen, Hearts)", &[51,41], &cards!(Ace, Clubs; Queen, Hearts)),
    ("cards!(Ace, Clubs; Queen, Diamonds;)", &[51,42], &cards!(Ace, Clubs; Queen, Diamonds;)),
    ("cards!(Ace, Clubs; Queen, Clubs)", &[51,43], &cards!(Ace, Clubs; Queen, Clubs)),
    ("cards!(Ace, Clubs; King, Spades;)", &[51,44], &cards!(Ace, Clubs; King, Spades;)),
    ("cards!(Ace, Clubs; King, Hearts)", &[51,45], &cards!(Ace, Clubs; King, Hearts)),
    ("cards!(Ace, Clubs; King, Diamonds;)", &[51,46], &cards!(Ace, Clubs; King, Diamonds;)),
    ("cards!(Ace, Clubs; King, Clubs)", &[51,47], &cards!(Ace, Clubs; King, Clubs)),
    ("cards!(Ace, Clubs; Ace, Spades;)", &[51,48], &cards!(Ace, Clubs; Ace, Spades;)),
    ("cards!(Ace, Clubs; Ace, Hearts)", &[51,49], &cards!(Ace, Clubs; Ace, Hearts)),
    ("cards!(Ace, Clubs; Ace, Diamonds;)", &[51,50], &cards!(Ace, Clubs; Ace, Diamonds;)),
    ("cards!(Ace, Clubs; Ace, Clubs)", &[51,51], &cards!(Ace, Clubs; Ace, Clubs)),
];

pub static PAIRS_OF: &[Const] = &[
    ("cards!(Two of Spades, Two of Spades,)", &[0,0], &cards!(Two of Spades, Two of Spades,)),
    ("cards!(Two of Spades, Two of Hearts)", &[0,1], &cards!(Two of Spades, Two of Hearts)),
    ("cards!(Two of Spades, Two of Diamonds,)", &[0,2], &cards!(Two of Spades, Two of Diamonds,)),
    ("cards!(Two of Spades, Two of Clubs)", &[0,3], &cards!(Two of Spades, Two of Clubs)),
    ("cards!(Two of Spades, Three of Spades,)", &[0,4], &cards!(Two of Spades, Three of Spades,)),
    ("cards!(Two of Spades, Three of Hearts)", &[0,5], &cards!(Two of Spades, Three of Hearts)),
    ("cards!(Two of Spades, Three of Diamonds,)", &[0,6], &cards!(Two of Spades, Three of Diamonds,)),
    ("cards!(Two of Spades, Three of Clubs)", &[0,7], &cards!(Two of Spades, Three of Clubs)),
    ("cards!(Two of Spades, Four of Spades,)", &[0,8], &cards!(Two of Spades, Four of Spades,)),
    ("cards!(Two of Spades, Four of Hearts)", &[0,9], &cards!(Two of Spades, Four of Hearts)),
    ("cards!(Two of Spades, Four of Diamonds,)", &[0,10], &cards!(Two of Spades, Four of Diamonds,)),
    ("cards!(Two of Spades, Four of Clubs)", &[0,11], &cards!(Two of Spades, Four of Clubs)),
    ("cards!(Two of Spades, Five of Spades,)", &[0,12], &cards!(Two of Spades, Five of Spades,)),
    ("cards!(Two of Spades, Five of Hearts)", &[0,13], &cards!(Two of Spades, Five of Hearts)),
    ("cards!(Two of Spades, Five of Diamonds,)", &[0,14], &cards!(Two of Spades, Five of Diamonds,)),
    ("cards!(Two of Spades, Five of Clubs)", &[0,15], &cards!(Two of Spades, Five of Clubs)),
    ("cards!(Two of Spades, Six of Spades,)", &[0,16], &cards!(Two of Spades, Six of Spades,)),
    ("cards!(Two of Spades, Six of Hearts)", &[0,17], &cards!(Two of Spades, Six of Hearts)),
    ("cards!(Two of Spades, Six of Diamonds,)", &[0,18], &cards!(Two of Spades, Six of Diamonds,)),
    ("cards!(Two of Spades, Six of Clubs)", &[0,19], &cards!(Two of Spades, Six of Clubs)),
    ("cards!(Two of Spades, Seven of Spades,)", &[0,20], &cards!(Two of Spades, Seven of Spades,)),
    ("cards!(Two of Spades, Seven of Hearts)", &[0,21], &cards!(Two of Spades, Seven of Hearts)),
    ("cards!(Two of Spades, Seven of Diamonds,)", &[0,22], &cards!(Two of Spades, Seven of Diamonds,)),
    ("cards!(Two of Spades, Seven of Clubs)", &[0,23], &cards!(Two of Spades, Seven of Clubs)),
    ("cards!(Two of Spades, Eight of Spades,)", &[0,24], &cards!(Two of Spades, Eight of Spades,)),
    ("cards!(Two of Spades, Eight of Hearts)", &[0,25], &cards!(Two of Spades, Eight of Hearts)),
    ("cards!(Two of Spades, Eight of Diamonds,)", &[0,26], &cards!(Two of Spades, Eight of Diamonds,)),
    ("cards!(Two of Spades, Eight of Clubs)", &[0,27], &cards!(Two of Spades, Eight of Clubs)),
    ("cards!(Two of Spades, Nine of Spades,)", &[0,28], &cards!(Two of Spades, Nine of Spades,)),
    ("cards!(Two of Spades, Nine of Hearts)", &[0,29], &cards!(Two of Spades, Nine of Hearts)),
    ("cards!(Two of Spades, Nine of Diamonds,)", &[0,30], &cards!(Two of Spades, Nine of Diamonds,)),
    ("cards!(Two of Spades, Nine of Clubs)", &[0,31], &cards!(Two of Spades, Nine of Clubs)),
    ("cards!(Two of Spades, Ten of Spades,)", &[0,32], &cards!(Two of Spades, Ten of Spades,)),
    ("cards!(Two of Spades, Ten of Hearts)", &[0,33], &cards!(Two of Spades, Ten of Hearts)),
    ("cards!(Two of Spades, Ten of Diamonds,)", &[0,34], &cards!(Two of Spades, Ten of Diamonds,)),
    ("cards!(Two of Spades, Ten of Clubs)", &[0,35], &cards!(Two of Spades, Ten of Clubs)),
    ("cards!(Two of Spades, Jack of Spades,)", &[0,36], &cards!(Two of Spades, Jack of Spades,)),
    ("cards!(Two of Spades, Jack of Hearts)", &[0,37], &cards!(Two of Spades, Jack of Hearts)),
    ("cards!(Two of Spades, Jack of Diamonds,)", &[0,38], &cards!(Two of Spades, Jack of Diamonds,)),
    ("cards!(Two of Spades, Jack of Clubs)", &[0,39], &cards!(Two of Spades, Jack of Clubs)),
    ("cards!(Two of Spades, Queen of Spades,)", &[0,40], &cards!(Two of Spades, Queen of Spades,)),
    ("cards!(Two of Spades, Queen of Hearts)", &[0,41], &cards!(Two of Spades, Queen of Hearts)),
    ("cards!(Two of Spades, Queen of Diamonds,)", &[0,42], &cards!(Two of Spades, Queen of Diamonds,)),
    ("cards!(Two of Spades, Queen of Clubs)", &[0,43], &cards!(Two of Spades, Queen of Clubs)),
    ("cards!(Two of Spades, King of Spades,)", &[0,44], &cards!(Two of Spades, King of Spades,)),
    ("cards!(Two of Spades, King of Hearts)", &[0,45], &cards!(Two of Spades, King of Hearts)),
    ("cards!(Two of Spades, King of Diamonds,)", &[0,46], &cards!(Two of Spades, King of Diamonds,)),
    ("cards!(Two of Spades, King of Clubs)", &[0,47], &cards!(Two of Spades, King of Clubs)),
    ("cards!(Two of Spades, Ace of Spades,)", &[0,48], &cards!(Two of Spades, Ace of Spades,)),
    ("cards!(Two of Spades, Ace of Hearts)", &[0,49], &cards!(Two of Spades, Ace of Hearts)),
    ("cards!(Two of Spades, Ace of Diamonds,)", &[0,50], &cards!(Two of Spades, Ace of Diamonds,)),
    ("cards!(Two of Spades, Ace of Clubs)", &[0,51], &cards!(Two of Spades, Ace of Clubs)),
    ("cards!(Two of Hearts, Two of Spades)", &[1,0], &cards!(Two of Hearts, Two of Spades)),
    ("cards!(Two of Hearts, Two of Hearts,)", &[1,1], &cards!(Two of Hearts, Two of Hearts,)),
    ("cards!(Two of Hearts, Two of Diamonds)", &[1,2], &cards!(Two of Hearts, Two of Diamonds)),
    ("cards!(Two of Hearts, Two of Clubs,)", &[1,3], &cards!(Two of Hearts, Two of Clubs,)),
    ("cards!(Two of Hearts, Three of Spades)", &[1,4], &cards!(Two of Hearts, Three of Spades)),
    ("cards!(Two of Hearts, Three of Hearts,)", &[1,5], &cards!(Two of Hearts, Three of Hearts,)),
    ("cards!(Two of Hearts, Three of Diamonds)", &[1,6], &cards!(Two of Hearts, Three of Diamonds)),
    ("cards!(Two of Hearts, Three of Clubs,)", &[1,7], &cards!(Two of Hearts, Three of Clubs,)),
    ("cards!(Two of Hearts, Four of Spades)", &[1,8], &cards!(Two of Hearts, Four of Spades)),
    ("cards!(Two of Hearts, Four of Hearts,)", &[1,9], &cards!(Two of Hearts, Four of Hearts,)),
    ("cards!(Two of Hearts, Four of Diamonds)", &[1,10], &cards!(Two of Hearts, Four of Diamonds)),
    ("cards!(Two of Hearts, Four of Clubs,)", &[1,11], &cards!(Two of Hearts, Four of Clubs,)),
    ("cards!(Two of Hearts, Five of Spades)", &[1,12], &cards!(Two of Hearts, Five of Spades)),
    ("cards!(Two of Hearts, Five of Hearts,)", &[1,13], &cards!(Two of Hearts, Five of Hearts,)),
    ("cards!(Two of Hearts, Five of Diamonds)", &[1,14], &cards!(Two of Hearts, Five of Diamonds)),
    ("cards!(Two of Hearts, Five of Clubs,)", &[1,15], &cards!(Two of Hearts, Five of Clubs,)),
    ("cards!(Two of Hearts, Six of Spades)", &[1,16], &cards!(Two of Hearts, Six of Spades)),
    ("cards!(Two of Hearts, Six of Hearts,)", &[1,17], &cards!(Two of Hearts, Six of Hearts,)),
    ("cards!(Two of Hearts, Six of Diamonds)", &[1,18], &cards!(Two of Hearts, Six of Diamonds)),
    ("cards!(Two of Hearts, Six of Clubs,)", &[1,19], &cards!(Two of Hearts, Six of Clubs,)),
    ("cards!(Two of Hearts, Seven of Spades)", &[1,20], &cards!(Two of Hearts, Seven of Spades)),
    ("cards!(Two of Hearts, Seven of Hearts,)", &[1,21], &cards!(Two of Hearts, Seven of Hearts,)),
    ("cards!(Two of Hearts, Seven of Diamonds)", &[1,22], &cards!(Two of Hearts, Seven of Diamonds)),
    ("cards!(Two of Hearts, Seven of Clubs,)", &[1,23], &cards!(Two of Hearts, Seven of Clubs,)),
    ("cards!(Two of Hearts, Eight of Spades)", &[1,24], &cards!(Two of Hearts, Eight of Spades)),
    ("cards!(Two of Hearts, Eight of Hearts,)", &[1,25], &cards!(Two of Hearts, Eight of Hearts,)),
    ("cards!(Two of Hearts, Eight of Diamonds)", &[1,26], &cards!(Two of Hearts, Eight of Diamonds)),
    ("cards!(Two of Hearts, Eight of Clubs,)", &[1,27], &cards!(Two of Hearts, Eight of Clubs,)),
    ("cards!(Two of Hearts, Nine of Spades)", &[1,28], &cards!(Two of Hearts, Nine of Spades)),
    ("cards!(Two of Hearts, Nine of Hearts,)", &[1,29], &cards!(Two of Hearts, Nine of Hearts,)),
    ("cards!(Two of Hearts, Nine of Diamonds)", &[1,30], &cards!(Two of Hearts, Nine of Diamonds)),
    ("cards!(Two of Hearts, Nine of Clubs,)", &[1,31], &cards!(Two of Hearts, Nine of Clubs,)),
    ("cards!(Two of Hearts, Ten of Spades)", &[1,32], &cards!(Two of Hearts, Ten of Spades)),
    ("cards!(Two of Hearts, Ten of Hearts,)", &[1,33], &cards!(Two of Hearts, Ten of Hearts,)),
    ("cards!(Two of Hearts, Ten of Diamonds)", &[1,34], &cards!(Two of Hearts, Ten of Diamonds)),
    ("cards!(Two of Hearts, Ten of Clubs,)", &[1,35], &cards!(Two of Hearts, Ten of Clubs,)),
    ("cards!(Two of Hearts, Jack of Spades)", &[1,36], &cards!(Two of Hearts, Jack of Spades)),
    ("cards!(Two of Hearts, Jack of Hearts,)", &[1,37], &cards!(Two of Hearts, Jack of Hearts,)),
    ("cards!(Two of Hearts, Jack of Diamonds)", &[1,38], &cards!(Two of Hearts, Jack of Diamonds)),
    ("cards!(Two of Hearts, Jack of Clubs,)", &[1,39], &cards!(Two of Hearts, Jack of Clubs,)),
    ("cards!(Two of Hearts, Queen of Spades)", &[1,40], &cards!(Two of Hearts, Queen of Spades)),
    ("cards!(Two of Hearts, Queen of Hearts,)", &[1,41], &cards!(Two of Hearts, Queen of Hearts,)),
    ("cards!(Two of Hearts, Queen of Diamonds)", &[1,42], &cards!(Two of Hearts, Queen of Diamonds)),
    ("cards!(Two of Hearts, Queen of Clubs,)", &[1,43], &cards!(Two of Hearts, Queen of Clubs,)),
    ("cards!(Two of Hearts, King of Spades)", &[1,44], &cards!(Two of Hearts, King of Spades)),
    ("cards!(Two of Hearts, King of Hearts,)", &[1,45], &cards!(Two of Hearts, King of Hearts,)),
    ("cards!(Two of Hearts, King of Diamonds)", &[1,46], &cards!(Two of Hearts, King of Diamonds)),
    ("cards!(Two of Hearts, King of Clubs,)", &[1,47], &cards!(Two of Hearts, King of Clubs,)),
    ("cards!(Two of Hearts, Ace of Spades)", &[1,48], &cards!(Two of Hearts, Ace of Spades)),
    ("cards!(Two of Hearts, Ace of Hearts,)", &[1,49], &cards!(Two of Hearts, Ace of Hearts,)),
    ("cards!(Two of Hearts, Ace of Diamonds)", &[1,50], &cards!(Two of Hearts, Ace of Diamonds)),
    ("cards!(Two of Hearts, Ace of Clubs,)", &[1,51], &cards!(Two of Hearts, Ace of Clubs,)),
    ("cards!(Two of Diamonds, Two of Spades,)", &[2,0], &cards!(Two of Diamonds, Two of Spades,)),
    ("cards!(Two of Diamonds, Two of Hearts)", &[2,1], &cards!(Two of Diamonds, Two of Hearts)),
    ("cards!(Two of Diamonds, Two of Diamonds,)", &[2,2], &cards!(Two of Diamonds, Two of Diamonds,)),
    ("cards!(Two of Diamonds, Two of Clubs)", &[2,3], &cards!(Two of Diamonds, Two of Clubs)),
    ("cards!(Two of Diamonds, Three of Spades,)", &[2,4], &cards!(Two of Diamonds, Three of Spades,)),
    ("cards!(Two of Diamonds, Three of Hearts)", &[2,5], &cards!(Two of Diamonds, Three of Hearts)),
    ("cards!(Two of Diamonds, Three of Diamonds,)", &[2,6], &cards!(Two of Diamonds, Three of Diamonds,)),
    ("cards!(Two of Diamonds, Three of Clubs)", &[2,7], &cards!(Two of Diamonds, Three of Clubs)),
    ("cards!(Two of Diamonds, Four of Spades,)", &[2,8], &cards!(Two of Diamonds, Four of Spades,)),
    ("cards!(Two of Diamonds, Four of Hearts)", &[2,9], &cards!(Two of Diamonds, Four of Hearts)),
    ("cards!(Two of Diamonds, Four of Diamonds,)", &[2,10], &cards!(Two of Diamonds, Four of Diamonds,)),
    ("cards!(Two of Diamonds, Four of Clubs)", &[2,11], &cards!(Two of Diamonds, Four of Clubs)),
    ("cards!(Two of Diamonds, Five of Spades,)", &[2,12], &cards!(Two of Diamonds, Five of Spades,)),
    ("cards!(Two of Diamonds, Five of Hearts)", &[2,13], &cards!(Two of Diamonds, Five of Hearts)),
    ("cards!(Two of Diamonds, Five of Diamonds,)", &[2,14], &cards!(Two of Diamonds, Five of Diamonds,)),
    ("cards!(Two of Diamonds, Five of Clubs)", &[2,15], &cards!(Two of Diamonds, Five of Clubs)),
    ("cards!(Two of Diamonds, Six of Spades,)", &[2,16], &cards!(Two of Diamonds, Six of Spades,)),
    ("cards!(Two of Diamonds, Six of Hearts)", &[2,17], &cards!(Two of Diamonds, Six of Hearts)),
    ("cards!(Two of Diamonds, Six of Diamonds,)", &[2,18], &cards!(Two of Diamonds, Six of Diamonds,)),
    ("cards!(Two of Diamonds, Six of Clubs)", &[2,19], &cards!(Two of Diamonds, Six of Clubs)),
    ("cards!(Two of Diamonds, Seven of Spades,)", &[2,20], &cards!(Two of Diamonds, Seven of Spades,)),
    ("cards!(Two of Diamonds, Seven of Hearts)", &[2,21], &cards!(Two of Diamonds, Seven of Hearts)),
    ("cards!(Two of Diamonds, Seven of Diamonds,)", &[2,22], &cards!(Two of Diamonds, Seven of Diamonds,)),
    ("cards!(Two of Diamonds, Seven of Clubs)", &[2,23], &cards!(Two of Diamonds, Seven of Clubs)),
    ("cards!(Two of Diamonds, Eight of Spades,)", &[2,24], &cards!(Two of Diamonds, Eight of Spades,)),
    ("cards!(Two of Diamonds, Eight of Hearts)", &[2,25], &cards!(Two of Diamonds, Eight of Hearts)),
    ("cards!(Two of Diamonds, Eight of Diamonds,)", &[2,26], &cards!(Two of Diamonds, Eight of Diamonds,)),
    ("cards!(Two of Diamonds, Eight of Clubs)", &[2,27], &cards!(Two of Diamonds, Eight of Clubs)),
    ("cards!(Two of Diamonds, Nine of Spades,)", &[2,28], &cards!(Two of Diamonds, Nine of Spades,)),
    ("cards!(Two of Diamonds, Nine of Hearts)", &[2,29], &cards!(Two of Diamonds, Nine of Hearts)),
    ("cards!(Two of Diamonds, Nine of Diamonds,)", &[2,30], &cards!(Two of Diamonds, Nine of Diamonds,)),
    ("cards!(Two of Diamonds, Nine of Clubs)", &[2,31], &cards!(Two of Diamonds, Nine of Clubs)),
    ("cards!(Two of Diamonds, Ten of Spades,)", &[2,32], &cards!(Two of Diamonds, Ten of Spades,)),
    ("cards!(Two of Diamonds, Ten of Hearts)", &[2,33], &cards!(Two of Diamonds, Ten of Hearts)),
    ("cards!(Two of Diamonds, Ten of Diamonds,)", &[2,34], &cards!(Two of Diamonds, Ten of Diamonds,)),
    ("cards!(Two of Diamonds, Ten of Clubs)", &[2,35], &cards!(Two of Diamonds, Ten of Clubs)),
    ("cards!(Two of Diamonds, Jack of Spades,)", &[2,36], &cards!(Two of Diamonds, Jack of Spades,)),
    ("cards!(Two of Diamonds, Jack of Hearts)", &[2,37], &cards!(Two of Diamonds, Jack of Hearts)),
    ("cards!(Two of Diamonds, Jack of Diamonds,)", &[2,38], &cards!(Two of Diamonds, Jack of Diamonds,)),
    ("cards!(Two of Diamonds, Jack of Clubs)", &[2,39], &cards!(Two of Diamonds, Jack of Clubs)),
    ("cards!(Two of Diamonds, Queen of Spades,)", &[2,40], &cards!(Two of Diamonds, Queen of Spades,)),
    ("cards!(Two of Diamonds, Queen of Hearts)", &[2,41], &cards!(Two of Diamonds, Queen of Hearts)),
    ("cards!(Two of Diamonds, Queen of Diamonds,)", &[2,42], &cards!(Two of Diamonds, Queen of Diamonds,)),
    ("cards!(Two of Diamonds, Queen of Clubs)", &[2,43], &cards!(Two of Diamonds, Queen of Clubs)),
    ("cards!(Two of Diamonds, King of Spades,)", &[2,44], &cards!(Two of Diamonds, King of Spades,)),
    ("cards!(Two of Diamonds, King of Hearts)", &[2,45], &cards!(Two of Diamonds, King of Hearts)),
    ("cards!(Two of Diamonds, King of Diamonds,)", &[2,46], &cards!(Two of Diamonds, King of Diamonds,)),
    ("cards!(Two of Diamonds, King of Clubs)", &[2,47], &cards!(Two of Diamonds, King of Clubs)),
    ("cards!(Two of Diamonds, Ace of Spades,)", &[2,48], &cards!(Two of Diamonds, Ace of Spades,)),
    ("cards!(Two of Diamonds, Ace of Hearts)", &[2,49], &cards!(Two of Diamonds, Ace of Hearts)),
    ("cards!(Two of Diamonds, Ace of Diamonds,)", &[2,50], &cards!(Two of Diamonds, Ace of Diamonds,)),
    ("cards!(Two of Diamonds, Ace of Clubs)", &[2,51], &cards!(Two of Diamonds, Ace of Clubs)),
    ("cards!(Two of Clubs, Two of Spades)", &[3,0], &cards!(Two of Clubs, Two of Spades)),
    ("cards!(Two of Clubs, Two of Hearts,)", &[3,1], &cards!(Two of Clubs, Two of Hearts,)),
    ("cards!(Two of Clubs, Two of Diamonds)", &[3,2], &cards!(Two of Clubs, Two of Diamonds)),
    ("cards!(Two of Clubs, Two of Clubs,)", &[3,3], &cards!(Two of Clubs, Two of Clubs,)),
    ("cards!(Two of Clubs, Three of Spades)", &[3,4], &cards!(Two of Clubs, Three of Spades)),
    ("cards!(Two of Clubs, Three of Hearts,)", &[3,5], &cards!(Two of Clubs, Three of Hearts,)),
    ("cards!(Two of Clubs, Three of Diamonds)", &[3,6], &cards!(Two of Clubs, Three of Diamonds)),
    ("cards!(Two of Clubs, Three of Clubs,)", &[3,7], &cards!(Two of Clubs, Three of Clubs,)),
    ("cards!(Two of Clubs, Four of Spades)", &[3,8], &cards!(Two of Clubs, Four of Spades)),
    ("cards!(Two of Clubs, Four of Hearts,)", &[3,9], &cards!(Two of Clubs, Four of Hearts,)),
    ("cards!(Two of Clubs, Four of Diamonds)", &[3,10], &cards!(Two of Clubs, Four of Diamonds)),
    ("cards!(Two of Clubs, Four of Clubs,)", &[3,11], &cards!(Two of Clubs, Four of Clubs,)),
    ("cards!(Two of Clubs, Five of Spades)", &[3,12], &cards!(Two of Clubs, Five of Spades)),
    ("cards!(Two of Clubs, Five of Hearts,)", &[3,13], &cards!(Two of Clubs, Five of Hearts,)),
    ("cards!(Two of Clubs, Five of Diamonds)", &[3,14], &cards!(Two of Clubs, Five of Diamonds)),
    ("cards!(Two of Clubs, Five of Clubs,)", &[3,15], &cards!(Two of Clubs, Five of Clubs,)),
    ("cards!(Two of Clubs, Six of Spades)", &[3,16], &cards!(Two of Clubs, Six of Spades)),
    ("cards!(Two of Clubs, Six of Hearts,)", &[3,17], &cards!(Two of Clubs, Six of Hearts,)),
    ("cards!(Two of Clubs, Six of Diamonds)", &[3,18], &cards!(Two of Clubs, Six of Diamonds)),
    ("cards!(Two of Clubs, Six of Clubs,)", &[3,19], &cards!(Two of Clubs, Six of Clubs,)),
    ("cards!(Two of Clubs, Seven of Spades)", &[3,20], &cards!(Two of Clubs, Seven of Spades)),
    ("cards!(Two of Clubs, Seven of Hearts,)", &[3,21], &cards!(Two of Clubs, Seven of Hearts,)),
    ("cards!(Two of Clubs, Seven of Diamonds)", &[3,22], &cards!(Two of Clubs, Seven of Diamonds)),
    ("cards!(Two of Clubs, Seven of Clubs,)", &[3,23], &cards!(Two of Clubs, Seven of Clubs,)),
    ("cards!(Two of Clubs, Eight of Spades)", &[3,24], &cards!(Two of Clubs, Eight of Spades)),
    ("cards!(Two of Clubs, Eight of Hearts,)", &[3,25], &cards!(Two of Clubs, Eight of Hearts,)),
    ("cards!(Two of Clubs, Eight of Diamonds)", &[3,26], &cards!(Two of Clubs, Eight of Diamonds)),
    ("cards!(Two of Clubs, Eight of Clubs,)", &[3,27], &cards!(Two of Clubs, Eight of Clubs,)),
    ("cards!(Two of Clubs, Nine of Spades)", &[3,28], &cards!(Two of Clubs, Nine of Spades)),
    ("cards!(Two of Clubs, Nine of Hearts,)", &[3,29], &cards!(Two of Clubs, Nine of Hearts,)),
    ("cards!(Two of Clubs, Nine of Diamonds)", &[3,30], &cards!(Two of Clubs, Nine of Diamonds)),
    ("cards!(Two of Clubs, Nine of Clubs,)", &[3,31], &cards!(Two of Clubs, Nine of Clubs,)),
    ("cards!(Two of Clubs, Ten of Spades)", &[3,32], &cards!(Two of Clubs, Ten of Spades)),
    ("cards!(Two of Clubs, Ten of Hearts,)", &[3,33], &cards!(Two of Clubs, Ten of Hearts,)),
    ("cards!(Two of Clubs, Ten of Diamonds)", &[3,34], &cards!(Two of Clubs, Ten of Diamonds)),
    ("cards!(Two of Clubs, Ten of Clubs,)", &[3,35], &cards!(Two of Clubs, Ten of Clubs,)),
    ("cards!(Two of Clubs, Jack of Spades)", &[3,36], &cards!(Two of Clubs, Jack of Spades)),
    ("cards!(Two of Clubs, Jack of Hearts,)", &[3,37], &cards!(Two of Clubs, Jack of Hearts,)),
    ("cards!(Two of Clubs, Jack of Diamonds)", &[3,38], &cards!(Two of Clubs, Jack of Diamonds)),
    ("cards!(Two of Clubs, Jack of Clubs,)", &[3,39], &cards!(Two of Clubs, Jack of Clubs,)),
    ("cards!(Two of Clubs, Queen of Spades)", &[3,40], &cards!(Two of Clubs, Queen of Spades)),
    ("cards!(Two of Clubs, Queen of Hearts,)", &[3,41], &cards!(Two of Clubs, Queen of Hearts,)),
    ("cards!(Two of Clubs, Queen of Diamonds)", &[3,42], &cards!(Two of Clubs, Queen of Diamonds)),
    ("cards!(Two of Clubs, Queen of Clubs,)", &[3,43], &cards!(Two of Clubs, Queen of Clubs,)),
    ("cards!(Two of Clubs, King of Spades)", &[3,44], &cards!(Two of Clubs, King of Spades)),
    ("cards!(Two of Clubs, King of Hearts,)", &[3,45], &cards!(Two of Clubs, King of Hearts,)),
    ("cards!(Two of Clubs, King of Diamonds)", &[3,46], &cards!(Two of Clubs, King of Diamonds)),
    ("cards!(Two of Clubs, King of Clubs,)", &[3,47], &cards!(Two of Clubs, King of Clubs,)),
    ("cards!(Two of Clubs, Ace of Spades)", &[3,48], &cards!(Two of Clubs, Ace of Spades)),
    ("cards!(Two of Clubs, Ace of Hearts,)", &[3,49], &cards!(Two of Clubs, Ace of Hearts,)),
    ("cards!(Two of Clubs, Ace of Diamonds)", &[3,50], &cards!(Two of Clubs, Ace of Diamonds)),
    ("cards!(Two of Clubs, Ace of Clubs,)", &[3,51], &cards!(Two of Clubs, Ace of Clubs,)),
    ("cards!(Three of Spades, Two of Spades,)", &[4,0], &cards!(Three of Spades, Two of Spades,)),
    ("cards!(Three of Spades, Two of Hearts)", &[4,1], &cards!(Three of Spades, Two of Hearts)),
    ("cards!(Three of Spades, Two of Diamonds,)", &[4,2], &cards!(Three of Spades, Two of Diamonds,)),
    ("cards!(Three of Spades, Two of Clubs)", &[4,3], &cards!(Three of Spades, Two of Clubs)),
    ("cards!(Three of Spades, Three of Spades,)", &[4,4], &cards!(Three of Spades, Three of Spades,)),
    ("cards!(Three of Spades, Three of Hearts)", &[4,5], &cards!(Three of Spades, Three of Hearts)),
    ("cards!(Three of Spades, Three of Diamonds,)", &[4,6], &cards!(Three of Spades, Three of Diamonds,)),
    ("cards!(Three of Spades, Three of Clubs)", &[4,7], &cards!(Three of Spades, Three of Clubs)),
    ("cards!(Three of Spades, Four of Spades,)", &[4,8], &cards!(Three of Spades, Four of Spades,)),
    ("cards!(Three of Spades, Four of Hearts)", &[4,9], &cards!(Three of Spades, Four of Hearts)),
    ("cards!(Three of Spades, Four of Diamonds,)", &[4,10], &cards!(Three of Spades, Four of Diamonds,)),
    ("cards!(Three of Spades, Four of Clubs)", &[4,11], &cards!(Three of Spades, Four of Clubs)),
    ("cards!(Three of Spades, Five of Spades,)", &[4,12], &cards!(Three of Spades, Five of Spades,)),
    ("cards!(Three of Spades, Five of Hearts)", &[4,13], &cards!(Three of Spades, Five of Hearts)),
    ("cards!(Three of Spades, Five of Diamonds,)", &[4,14], &cards!(Three of Spades, Five of Diamonds,)),
    ("cards!(Three of Spades, Five of Clubs)", &[4,15], &cards!(Three of Spades, Five of Clubs)),
    ("cards!(Three of Spades, Six of Spades,)", &[4,16], &cards!(Three of Spades, Six of Spades,)),
    ("cards!(Three of Spades, Six of Hearts)", &[4,17], &cards!(Three of Spades, Six of Hearts)),
    ("cards!(Three of Spades, Six of Diamonds,)", &[4,18], &cards!(Three of Spades, Six of Diamonds,)),
    ("cards!(Three of Spades, Six of Clubs)", &[4,19], &cards!(Three of Spades, Six of Clubs)),
    ("cards!(Three of Spades, Seven of Spades,)", &[4,20], &cards!(Three of Spades, Seven of Spades,)),
    ("cards!(Three of Spades, Seven of Hearts)", &[4,21], &cards!(Three of Spades, Seven of Hearts)),
    ("cards!(Three of Spades, Seven of Diamonds,)", &[4,22], &cards!(Three of Spades, Seven of Diamonds,)),
    ("cards!(Three of Spades, Seven of Clubs)", &[4,23], &cards!(Three of Spades, Seven of Clubs)),
    ("cards!(Three of Spades, Eight of Spades,)", &[4,24], &cards!(Three of Spades, Eight of Spades,)),
    ("cards!(Three of Spades, Eight of Hearts)", &[4,25], &cards!(Three of Spades, Eight of Hearts)),
    ("cards!(Three of Spades, Eight of Diamonds,)", &[4,26], &cards!(Three of Spades, Eight of Diamonds,)),
    ("cards!(Three of Spades, Eight of Clubs)", &[4,27], &cards!(Three of Spades, Eight of Clubs)),
    ("cards!(Three of Spades, Nine of Spades,)", &[4,28], &cards!(Three of Spades, Nine of Spades,)),
    ("cards!(Three of Spades, Nine of Hearts)", &[4,29], &cards!(Three of Spades, Nine of Hearts)),
    ("cards!(Three of Spades, Nine of Diamonds,)", &[4,30], &cards!(Three of Spades, Nine of Diamonds,)),
    ("cards!(Three of Spades, Nine of Clubs)", &[4,31], &cards!(Three of Spades, Nine of Clubs)),
    ("cards!(Three of Spades, Ten of Spades,)", &[4,32], &cards!(Three of Spades, Ten of Spades,)),
    ("cards!(Three of Spades, Ten of Hearts)", &[4,33], &cards!(Three of Spades, Ten of Hearts)),
    ("cards!(Three of Spades, Ten of Diamonds,)", &[4,34], &cards!(Three of Spades, Ten of Diamonds,)),
    ("cards!(Three of Spades, Ten of Clubs)", &[4,35], &cards!(Three of Spades, Ten of Clubs)),
    ("cards!(Three of Spades, Jack of Spades,)", &[4,36], &cards!(Three of Spades, Jack of Spades,)),
    ("cards!(Three of Spades, Jack of Hearts)", &[4,37], &cards!(Three of Spades, Jack of Hearts)),
    ("cards!(Three of Spades, Jack of Diamonds,)", &[4,38], &cards!(Three of Spades, Jack of Diamonds,)),
    ("cards!(Three of Spades, Jack of Clubs)", &[4,39], &cards!(Three of Spades, Jack of Clubs)),
    ("cards!(Three of Spades, Queen of Spades,)", &[4,40], &cards!(Three of Spades, Queen of Spades,)),
    ("cards!(Three of Spades, Queen of Hearts)", &[4,41], &cards!(Three of Spades, Queen of Hearts)),
    ("cards!(Three of Spades, Queen of Diamonds,)", &[4,42], &cards!(Three of Spades, Queen of Diamonds,)),
    ("cards!(Three of Spades, Queen of Clubs)", &[4,43], &cards!(Three of Spades, Queen of Clubs)),
    ("cards!(Three of Spades, King of Spades,)", &[4,44], &cards!(Three of Spades, King of Spades,)),
    ("cards!(Three of Spades, King of Hearts)", &[4,45], &cards!(Three of Spades, King of Hearts)),
    ("cards!(Three of Spades, King of Diamonds,)", &[4,46], &cards!(Three of Spades, King of Diamonds,)),
    ("cards!(Three of Spades, King of Clubs)", &[4,47], &cards!(Three of Spades, King of Clubs)),
    ("cards!(Three of Spades, Ace of Spades,)", &[4,48], &cards!(Three of Spades, Ace of Spades,)),
    ("cards!(Three of Spades, Ace of Hearts)", &[4,49], &cards!(Three of Spades, Ace of Hearts)),
    ("cards!(Three of Spades, Ace of Diamonds,)", &[4,50], &cards!(Three of Spades, Ace of Diamonds,)),
    ("cards!(Three of Spades, Ace of Clubs)", &[4,51], &cards!(Three of Spades, Ace of Clubs)),
    ("cards!(Three of Hearts, Two of Spades)", &[5,0], &cards!(Three of Hearts, Two of Spades)),
    ("cards!(Three of Hearts, Two of Hearts,)", &[5,1], &cards!(Three of Hearts, Two of Hearts,)),
    ("cards!(Three of Hearts, Two of Diamonds)", &[5,2], &cards!(Three of Hearts, Two of Diamonds)),
    ("cards!(Three of Hearts, Two of Clubs,)", &[5,3], &cards!(Three of Hearts, Two of Clubs,)),
    ("cards!(Three of Hearts, Three of Spades)", &[5,4], &cards!(Three of Hearts, Three of Spades)),
    ("cards!(Three of Hearts, Three of Hearts,)", &[5,5], &cards!(Three of Hearts, Three of Hearts,)),
    ("cards!(Three of Hearts, Three of Diamonds)", &[5,6], &cards!(Three of Hearts, Three of Diamonds)),
    ("cards!(Three of Hearts, Three of Clubs,)", &[5,7], &cards!(Three of Hearts, Three of Clubs,)),
    ("cards!(Three of Hearts, Four of Spades)", &[5,8], &cards!(Three of Hearts, Four of Spades)),
    ("cards!(Three of Hearts, Four of Hearts,)", &[5,9], &cards!(Three of Hearts, Four of Hearts,)),
    ("cards!(Three of Hearts, Four of Diamonds)", &[5,10], &cards!(Three of Hearts, Four of Diamonds)),
    ("cards!(Three of Hearts, Four of Clubs,)", &[5,11], &cards!(Three of Hearts, Four of Clubs,)),
    ("cards!(Three of Hearts, Five of Spades)", &[5,12], &cards!(Three of Hearts, Five of Spades)),
    ("cards!(Three of Hearts, Five of Hearts,)", &[5,13], &cards!(Three of Hearts, Five of Hearts,)),
    ("cards!(Three of Hearts, Five of Diamonds)", &[5,14], &cards!(Three of Hearts, Five of Diamonds)),
    ("cards!(Three of Hearts, Five of Clubs,)", &[5,15], &cards!(Three of Hearts, Five of Clubs,)),
    ("cards!(Three of Hearts, Six of Spades)", &[5,16], &cards!(Three of Hearts, Six of Spades)),
    ("cards!(Three of Hearts, Six of Hearts,)", &[5,17], &cards!(Three of Hearts, Six of Hearts,)),
    ("cards!(Three of Hearts, Six of Diamonds)", &[5,18], &cards!(Three of Hearts, Six of Diamonds)),
    ("cards!(Three of Hearts, Six of Clubs,)", &[5,19], &cards!(Three of Hearts, Six of Clubs,)),
    ("cards!(Three of Hearts, Seven of Spades)", &[5,20], &cards!(Three of Hearts, Seven of Spades)),
    ("cards!(Three of Hearts, Seven of Hearts,)", &[5,21], &cards!(Three of Hearts, Seven of Hearts,)),
    ("cards!(Three of Hearts, Seven of Diamonds)", &[5,22], &cards!(Three of Hearts, Seven of Diamonds)),
    ("cards!(Three of Hearts, Seven of Clubs,)", &[5,23], &cards!(Three of Hearts, Seven of Clubs,)),
    ("cards!(Three of Hearts, Eight of Spades)", &[5,24], &cards!(Three of Hearts, Eight of Spades)),
    ("cards!(Three of Hearts, Eight of Hearts,)", &[5,25], &cards!(Three of Hearts, Eight of Hearts,)),
    ("cards!(Three of Hearts, Eight of Diamonds)", &[5,26], &cards!(Three of Hearts, Eight of Diamonds)),
    ("cards!(Three of Hearts, Eight of Clubs,)", &[5,27], &cards!(Three of Hearts, Eight of Clubs,)),
    ("cards!(Three of Hearts, Nine of Spades)", &[5,28], &cards!(Three of Hearts, Nine of Spades)),
    ("cards!(Three of Hearts, Nine of Hearts,)", &[5,29], &cards!(Three of Hearts, Nine of Hearts,)),
    ("cards!(Three of Hearts, Nine of Diamonds)", &[5,30], &cards!(Three of Hearts, Nine of Diamonds)),
    ("cards!(Three of Hearts, Nine of Clubs,)", &[5,31], &cards!(Three of Hearts, Nine of Clubs,)),
    ("cards!(Three of Hearts, Ten of Spades)", &[5,32], &cards!(Three of Hearts, Ten of Spades)),
    ("cards!(Three of Hearts, Ten of Hearts,)", &[5,33], &cards!(Three of Hearts, Ten of Hearts,)),
    ("cards!(Three of Hearts, Ten of Diamonds)", &[5,34], &cards!(Three of Hearts, Ten of Diamonds)),
    ("cards!(Three of Hearts, Ten of Clubs,)", &[5,35], &cards!(Three of Hearts, Ten of Clubs,)),
    ("cards!(Three of Hearts, Jack of Spades)", &[5,36], &cards!(Three of Hearts, Jack of Spades)),
    ("cards!(Three of Hearts, Jack of Hearts,)", &[5,37], &cards!(Three of Hearts, Jack of Hearts,)),
    ("cards!(Three of Hearts, Jack of Diamonds)", &[5,38], &cards!(Three of Hearts, Jack of Diamonds)),
    ("cards!(Three of Hearts, Jack of Clubs,)", &[5,39], &cards!(Three of Hearts, Jack of Clubs,)),
    ("cards!(Three of Hearts, Queen of Spades)", &[5,40], &cards!(Three of Hearts, Queen of Spades)),
    ("cards!(Three of Hearts, Queen of Hearts,)", &[5,41], &cards!(Three of Hearts, Queen of Hearts,)),
    ("cards!(Three of Hearts, Queen of Diamonds)", &[5,42], &cards!(Three of Hearts, Queen of Diamonds)),
    ("cards!(Three of Hearts, Queen of Clubs,)", &[5,43], &cards!(Three of Hearts, Queen of Clubs,)),
    ("cards!(Three of Hearts, King of Spades)", &[5,44], &cards!(Three of Hearts, King of Spades)),
    ("cards!(Three of Hearts, King of Hearts,)", &[5,45], &cards!(Three of Hearts, King of Hearts,)),
    ("cards!(Three of Hearts, King of Diamonds)", &[5,46], &cards!(Three of Hearts, King of Diamonds)),
    ("cards!(Three of Hearts, King of Clubs,)", &[5,47], &cards!(Three of Hearts, King of Clubs,)),
    ("cards!(Three of Hearts, Ace of Spades)", &[5,48], &cards!(Three of Hearts, Ace of Spades)),
    ("cards!(Three of Hearts, Ace of Hearts,)", &[5,49], &cards!(Three of Hearts, Ace of Hearts,)),
    ("cards!(Three of Hearts, Ace of Diamonds)", &[5,50], &cards!(Three of Hearts, Ace of Diamonds)),
    ("cards!(Three of Hearts, Ace of Clubs,)", &[5,51], &cards!(Three of Hearts, Ace of Clubs,)),
    ("cards!(Three of Diamonds, Two of Spades,)", &[6,0], &cards!(Three of Diamonds, Two of Spades,)),
    ("cards!(Three of Diamonds, Two of Hearts)", &[6,1], &cards!(Three of Diamonds, Two of Hearts)),
    ("cards!(Three of Diamonds, Two of Diamonds,)", &[6,2], &cards!(Three of Diamonds, Two of Diamonds,)),
    ("cards!(Three of Diamonds, Two of Clubs)", &[6,3], &cards!(Three of Diamonds, Two of Clubs)),
    ("cards!(Three of Diamonds, Three of Spades,)", &[6,4], &cards!(Three of Diamonds, Three of Spades,)),
    ("cards!(Three of Diamonds, Three of Hearts)", &[6,5], &cards!(Three of Diamonds, Three of Hearts)),
    ("cards!(Three of Diamonds, Three of Diamonds,)", &[6,6], &cards!(Three of Diamonds, Three of Diamonds,)),
    ("cards!(Three of Diamonds, Three of Clubs)", &[6,7], &cards!(Three of Diamonds, Three of Clubs)),
    ("cards!(Three of Diamonds, Four of Spades,)", &[6,8], &cards!(Three of Diamonds, Four of Spades,)),
    ("cards!(Three of Diamonds, Four of Hearts)", &[6,9], &cards!(Three of Diamonds, Four of Hearts)),
    ("cards!(Three of Diamonds, Four of Diamonds,)", &[6,10], &cards!(Three of Diamonds, Four of Diamonds,)),
    ("cards!(Three of Diamonds, Four of Clubs)", &[6,11], &cards!(Three of Diamonds, Four of Clubs)),
    ("cards!(Three of Diamonds, Five of Spades,)", &[6,12], &cards!(Three of Diamonds, Five of Spades,)),
    ("cards!(Three of Diamonds, Five of Hearts)", &[6,13], &cards!(Three of Diamonds, Five of Hearts)),
    ("cards!(Three of Diamonds, Five of Diamonds,)", &[6,14], &cards!(Three of Diamonds, Five of Diamonds,)),
    ("cards!(Three of Diamonds, Five of Clubs)", &[6,15], &cards!(Three of Diamonds, Five of Clubs)),
    ("cards!(Three of Diamonds, Six of Spades,)", &[6,16], &cards!(Three of Diamonds, Six of Spades,)),
    ("cards!(Three of Diamonds, Six of Hearts)", &[6,17], &cards!(Three of Diamonds, Six of Hearts)),
    ("cards!(Three of Diamonds, Six of Diamonds,)", &[6,18], &cards!(Three of Diamonds, Six of Diamonds,)),
    ("cards!(Three of Diamonds, Six of Clubs)", &[6,19], &cards!(Three of Diamonds, Six of Clubs)),
    ("cards!(Three of Diamonds, Seven of Spades,)", &[6,20], &cards!(Three of Diamonds, Seven of Spades,)),
    ("cards!(Three of Diamonds, Seven of Hearts)", &[6,21], &cards!(Three of Diamonds, Seven of Hearts)),
    ("cards!(Three of Diamonds, Seven of Diamonds,)", &[6,22], &cards!(Three of Diamonds, Seven of Diamonds,)),
    ("cards!(Three of Diamonds, Seven of Clubs)", &[6,23], &cards!(Three of Diamonds, Seven of Clubs)),
    ("cards!(Three of Diamonds, Eight of Spades,)", &[6,24], &cards!(Three of Diamonds, Eight of Spades,)),
    ("cards!(Three of Diamonds, Eight of Hearts)", &[6,25], &cards!(Three of Diamonds, Eight of Hearts)),
    ("cards!(Three of Diamonds, Eight of Diamonds,)", &[6,26], &cards!(Three of Diamonds, Eight of Diamonds,)),
    ("cards!(Three of Diamonds, Eight of Clubs)", &[6,27], &cards!(Three of Diamonds, Eight of Clubs)),
    ("cards!(Three of Diamonds, Nine of Spades,)", &[6,28], &cards!(Three of Diamonds, Nine of Spades,)),
    ("cards!(Three of Diamonds, Nine of Hearts)", &[6,29], &cards!(Three of Diamonds, Nine of Hearts)),
    ("cards!(Three of Diamonds, Nine of Diamonds,)", &[6,30], &cards!(Three of Diamonds, Nine of Diamonds,)),
    ("cards!(Three of Diamonds, Nine of Clubs)", &[6,31], &cards!(Three of Diamonds, Nine of Clubs)),
    ("cards!(Three of Diamonds, Ten of Spades,)", &[6,32], &cards!(Three of Diamonds, Ten of Spades,)),
    ("cards!(Three of Diamonds, Ten of Hearts)", &[6,33], &cards!(Three of Diamonds, Ten of Hearts)),
    ("cards!(Three of Diamonds, Ten of Diamonds,)", &[6,34], &cards!(Three of Diamonds, Ten of Diamonds,)),
    ("cards!(Three of Diamonds, Ten of Clubs)", &[6,35], &cards!(Three of Diamonds, Ten of Clubs)),
    ("cards!(Three of Diamonds, Jack of Spades,)", &[6,36], &cards!(Three of Diamonds, Jack of Spades,)),
    ("cards!(Three of Diamonds, Jack of Hearts)", &[6,37], &cards!(Three of Diamonds, Jack of Hearts)),
    ("cards!(Three of Diamonds, Jack of Diamonds,)", &[6,38], &cards!(Three of Diamonds, Jack of Diamonds,)),
    ("cards!(Three of Diamonds, Jack of Clubs)", &[6,39], &cards!(Three of Diamonds, Jack of Clubs)),
    ("cards!(Three of Diamonds, Queen of Spades,)", &[6,40], &cards!(Three of Diamonds, Queen of Spades,)),
    ("cards!(Three of Diamonds, Queen of Hearts)", &[6,41], &cards!(Three of Diamonds, Queen of Hearts)),
    ("cards!(Three of Diamonds, Queen of Diamonds,)", &[6,42], &cards!(Three of Diamonds, Queen of Diamonds,)),
    ("cards!(Three of Diamonds, Queen of Clubs)", &[6,43], &cards!(Three of Diamonds, Queen of Clubs)),
    ("cards!(Three of Diamonds, King of Spades,)", &[6,44], &cards!(Three of Diamonds, King of Spades,)),
    ("cards!(Three of Diamonds, King of Hearts)", &[6,45], &cards!(Three of Diamonds, King of Hearts)),
    ("cards!(Three of Diamonds, King of Diamonds,)", &[6,46], &cards!(Three of Diamonds, King of Diamonds,)),
    ("cards!(Three of Diamonds, King of Clubs)", &[6,47], &cards!(Three of Diamonds, King of Clubs)),
    ("cards!(Three of Diamonds, Ace of Spades,)", &[6,48], &cards!(Three of Diamonds, Ace of Spades,)),
    ("cards!(Three of Diamonds, Ace of Hearts)", &[6,49], &cards!(Three of Diamonds, Ace of Hearts)),
    ("cards!(Three of Diamonds, Ace of Diamonds,)", &[6,50], &cards!(Three of Diamonds, Ace of Diamonds,)),
    ("cards!(Three of Diamonds, Ace of Clubs)", &[6,51], &cards!(Three of Diamonds, Ace of Clubs)),
    ("cards!(Three of Clubs, Two of Spades)", &[7,0], &cards!(Three of Clubs, Two of Spades)),
    ("cards!(Three of Clubs, Two of Hearts,)", &[7,1], &cards!(Three of Clubs, Two of Hearts,)),
    ("cards!(Three of Clubs, Two of Diamonds)", &[7,2], &cards!(Three of Clubs, Two of Diamonds)),
    ("cards!(Three of Clubs, Two of Clubs,)", &[7,3], &cards!(Three of Clubs, Two of Clubs,)),
    ("cards!(Three of Clubs, Three of Spades)", &[7,4], &cards!(Three of Clubs, Three of Spades)),
    ("cards!(Three of Clubs, Three of Hearts,)", &[7,5], &cards!(Three of Clubs, Three of Hearts,)),
    ("cards!(Three of Clubs, Three of Diamonds)", &[7,6], &cards!(Three of Clubs, Three of Diamonds)),
    ("cards!(Three of Clubs, Three of Clubs,)", &[7,7], &cards!(Three of Clubs, Three of Clubs,)),
    ("cards!(Three of Clubs, Four of Spades)", &[7,8], &cards!(Three of Clubs, Four of Spades)),
    ("cards!(Three of Clubs, Four of Hearts,)", &[7,9], &cards!(Three of Clubs, Four of Hearts,)),
    ("cards!(Three of Clubs, Four of Diamonds)", &[7,10], &cards!(Three of Clubs, Four of Diamonds)),
    ("cards!(Three of Clubs, Four of Clubs,)", &[7,11], &cards!(Three of Clubs, Four of Clubs,)),
    ("cards!(Three of Clubs, Five of Spades)", &[7,12], &cards!(Three of Clubs, Five of Spades)),
    ("cards!(Three of Clubs, Five of Hearts,)", &[7,13], &cards!(Three of Clubs, Five of Hearts,)),
    ("cards!(Three of Clubs, Five of Diamonds)", &[7,14], &cards!(Three of Clubs, Five of Diamonds)),
    ("cards!(Three of Clubs, Five of Clubs,)", &[7,15], &cards!(Three of Clubs, Five of Clubs,)),
    ("cards!(Three of Clubs, Six of Spades)", &[7,16], &cards!(Three of Clubs, Six of Spades)),
    ("cards!(Three of Clubs, Six of Hearts,)", &[7,17], &cards!(Three of Clubs, Six of Hearts,)),
    ("cards!(Three of Clubs, Six of Diamonds)", &[7,18], &cards!(Three of Clubs, Six of Diamonds)),
    ("cards!(Three of Clubs, Six of Clubs,)", &[7,19], &cards!(Three of Clubs, Six of Clubs,)),
    ("cards!(Three of Clubs, Seven of Spades)", &[7,20], &cards!(Three of Clubs, Seven of Spades)),
    ("cards!(Three of Clubs, Seven of Hearts,)", &[7,21], &cards!(Three of Clubs, Seven of Hearts,)),
    ("cards!(Three of Clubs, Seven of Diamonds)", &[7,22], &cards!(Three of Clubs, Seven of Diamonds)),
    ("cards!(Three of Clubs, Seven of Clubs,)", &[7,23], &cards!(Three of Clubs, Seven of Clubs,)),
    ("cards!(Three of Clubs, Eight of Spades)", &[7,24], &cards!(Three of Clubs, Eight of Spades)),
    ("cards!(Three of Clubs, Eight of Hearts,)", &[7,25], &cards!(Three of Clubs, Eight of Hearts,)),
    ("cards!(Three of Clubs, Eight of Diamonds)", &[7,26], &cards!(Three of Clubs, Eight of Diamonds)),
    ("cards!(Three of Clubs, Eight of Clubs,)", &[7,27], &cards!(Three of Clubs, Eight of Clubs,)),
    ("cards!(Three of Clubs, Nine of Spades)", &[7,28], &cards!(Three of Clubs, Nine of Spades)),
    ("cards!(Three of Clubs, Nine of Hearts,)", &[7,29], &cards!(Three of Clubs, Nine of Hearts,)),
    ("cards!(Three of Clubs, Nine of Diamonds)", &[7,30], &cards!(Three of Clubs, Nine of Diamonds)),
    ("cards!(Three of Clubs, Nine of Clubs,)", &[7,31], &cards!(Three of Clubs, Nine of Clubs,)),
    ("cards!(Three of Clubs, Ten of Spades)", &[7,32], &cards!(Three of Clubs, Ten of Spades)),
    ("cards!(Three of Clubs, Ten of Hearts,)", &[7,33], &cards!(Three of Clubs, Ten of Hearts,)),
    ("cards!(Three of Clubs, Ten of Diamonds)", &[7,34], &cards!(Three of Clubs, Ten of Diamonds)),
    ("cards!(Three of Clubs, Ten of Clubs,)", &[7,35], &cards!(Three of Clubs, Ten of Clubs,)),
    ("cards!(Three of Clubs, Jack of Spades)", &[7,36], &cards!(Three of Clubs, Jack of Spades)),
    ("cards!(Three of Clubs, Jack of Hearts,)", &[7,37], &cards!(Three of Clubs, Jack of Hearts,)),
    ("cards!(Three of Clubs, Jack of Diamonds)", &[7,38], &cards!(Three of Clubs, Jack of Diamonds)),
    ("cards!(Three of Clubs, Jack of Clubs,)", &[7,39], &cards!(Three of Clubs, Jack of Clubs,)),
    ("cards!(Three of Clubs, Queen of Spades)", &[7,40], &cards!(Three of Clubs, Queen of Spades)),
    ("cards!(Three of Clubs, Queen of Hearts,)", &[7,41], &cards!(Three of Clubs, Queen of Hearts,)),
    ("cards!(Three of Clubs, Queen of Diamonds)", &[7,42], &cards!(Three of Clubs, Queen of Diamonds)),
    ("cards!(Three of Clubs, Queen of Clubs,)", &[7,43], &cards!(Three of Clubs, Queen of Clubs,)),
    ("cards!(Three of Clubs, King of Spades)", &[7,44], &cards!(Three of Clubs, King of Spades)),
    ("cards!(Three of Clubs, King of Hearts,)", &[7,45], &cards!(Three of Clubs, King of Hearts,)),
    ("cards!(Three of Clubs, King of Diamonds)", &[7,46], &cards!(Three of Clubs, King of Diamonds)),
    ("cards!(Three of Clubs, King of Clubs,)", &[7,47], &cards!(Three of Clubs, King of Clubs,)),
    ("cards!(Three of Clubs, Ace of Spades)", &[7,48], &cards!(Three of Clubs, Ace of Spades)),
    ("cards!(Three of Clubs, Ace of Hearts,)", &[7,49], &cards!(Three of Clubs, Ace of Hearts,)),
    ("cards!(Three of Clubs, Ace of Diamonds)", &[7,50], &cards!(Three of Clubs, Ace of Diamonds)),
    ("cards!(Three of Clubs, Ace of Clubs,)", &[7,51], &cards!(Three of Clubs, Ace of Clubs,)),
    ("cards!(Four of Spades, Two of Spades,)", &[8,0], &cards!(Four of Spades, Two of Spades,)),
    ("cards!(Four of Spades, Two of Hearts)", &[8,1], &cards!(Four of Spades, Two of Hearts)),
    ("cards!(Four of Spades, Two of Diamonds,)", &[8,2], &cards!(Four of Spades, Two of Diamonds,)),
    ("cards!(Four of Spades, Two of Clubs)", &[8,3], &cards!(Four of Spades, Two of Clubs)),
    ("cards!(Four of Spades, Three of Spades,)", &[8,4], &cards!(Four of Spades, Three of Spades,)),
    ("cards!(Four of Spades, Three of Hearts)", &[8,5], &cards!(Four of Spades, Three of Hearts)),
    ("cards!(Four of Spades, Three of Diamonds,)", &[8,6], &cards!(Four of Spades, Three of Diamonds,)),
    ("cards!(Four of Spades, Three of Clubs)", &[8,7], &cards!(Four of Spades, Three of Clubs)),
    ("cards!(Four of Spades, Four of Spades,)", &[8,8], &cards!(Four of Spades, Four of Spades,)),
    ("cards!(Four of Spades, Four of Hearts)", &[8,9], &cards!(Four of Spades, Four of Hearts)),
    ("cards!(Four of Spades, Four of Diamonds,)", &[8,10], &cards!(Four of Spades, Four of Diamonds,)),
    ("cards!(Four of Spades, Four of Clubs)", &[8,11], &cards!(Four of Spades, Four of Clubs)),
    ("cards!(Four of Spades, Five of Spades,)", &[8,12], &cards!(Four of Spades, Five of Spades,)),
    ("cards!(Four of Spades, Five of Hearts)", &[8,13], &cards!(Four of Spades, Five of Hearts)),
    ("cards!(Four of Spades, Five of Diamonds,)", &[8,14], &cards!(Four of Spades, Five of Diamonds,)),
    ("cards!(Four of Spades, Five of Clubs)", &[8,15], &cards!(Four of Spades, Five of Clubs)),
    ("cards!(Four of Spades, Six of Spades,)", &[8,16], &cards!(Four of Spades, Six of Spades,)),
    ("cards!(Four of Spades, Six of Hearts)", &[8,17], &cards!(Four of Spades, Six of Hearts)),
    ("cards!(Four of Spades, Six of Diamonds,)", &[8,18], &cards!(Four of Spades, Six of Diamonds,)),
    ("cards!(Four of Spades, Six of Clubs)", &[8,19], &cards!(Four of Spades, Six of Clubs)),
    ("cards!(Four of Spades, Seven of Spades,)", &[8,20], &cards!(Four of Spades, Seven of Spades,)),
    ("cards!(Four of Spades, Seven of Hearts)", &[8,21], &cards!(Four of Spades, Seven of Hearts)),
    ("cards!(Four of Spades, Seven of Diamonds,)", &[8,22], &cards!(Four of Spades, Seven of Diamonds,)),
    ("cards!(Four of Spades, Seven of Clubs)", &[8,23], &cards!(Four of Spades, Seven of Clubs)),
    ("cards!(Four of Spades, Eight of Spades,)", &[8,24], &cards!(Four of Spades, Eight of Spades,)),
    ("cards!(Four of Spades, Eight of Hearts)", &[8,25], &cards!(Four of Spades, Eight of Hearts)),
    ("cards!(Four of Spades, Eight of Diamonds,)", &[8,26], &cards!(Four of Spades, Eight of Diamonds,)),
    ("cards!(Four of Spades, Eight of Clubs)", &[8,27], &cards!(Four of Spades, Eight of Clubs)),
    ("cards!(Four of Spades, Nine of Spades,)", &[8,28], &cards!(Four of Spades, Nine of Spades,)),
    ("cards!(Four of Spades, Nine of Hearts)", &[8,29], &cards!(Four of Spades, Nine of Hearts)),
    ("cards!(Four of Spades, Nine of Diamonds,)", &[8,30], &cards!(Four of Spades, Nine of Diamonds,)),
    ("cards!(Four of Spades, Nine of Clubs)", &[8,31], &cards!(Four of Spades, Nine of Clubs)),
    ("cards!(Four of Spades, Ten of Spades,)", &[8,32], &cards!(Four of Spades, Ten of Spades,)),
    ("cards!(Four of Spades, Ten of Hearts)", &[8,33], &cards!(Four of Spades, Ten of Hearts)),
    ("cards!(Four of Spades, Ten of Diamonds,)", &[8,34], &cards!(Four of Spades, Ten of Diamonds,)),
    ("cards!(Four of Spades, Ten of Clubs)", &[8,35], &cards!(Four of Spades, Ten of Clubs)),
    ("cards!(Four of Spades, Jack of Spades,)", &[8,36], &cards!(Four of Spades, Jack of Spades,)),
    ("cards!(Four of Spades, Jack of Hearts)", &[8,37], &cards!(Four of Spades, Jack of Hearts)),
    ("cards!(Four of Spades, Jack of Diamonds,)", &[8,38], &cards!(Four of Spades, Jack of Diamonds,)),
    ("cards!(Four of Spades, Jack of Clubs)", &[8,39], &cards!(Four of Spades, Jack of Clubs)),
    ("cards!(Four of Spades, Queen of Spades,)", &[8,40], &cards!(Four of Spades, Queen of Spades,)),
    ("cards!(Four of Spades, Queen of Hearts)", &[8,41], &cards!(Four of Spades, Queen of Hearts)),
    ("cards!(Four of Spades, Queen of Diamonds,)", &[8,42], &cards!(Four of Spades, Queen of Diamonds,)),
    ("cards!(Four of Spades, Queen of Clubs)", &[8,43], &cards!(Four of Spades, Queen of Clubs)),
    ("cards!(Four of Spades, King of Spades,)", &[8,44], &cards!(Four of Spades, King of Spades,)),
    ("cards!(Four of Spades, King of Hearts)", &[8,45], &cards!(Four of Spades, King of Hearts)),
    ("cards!(Four of Spades, King of Diamonds,)", &[8,46], &cards!(Four of Spades, King of Diamonds,)),
    ("cards!(Four of Spades, King of Clubs)", &[8,47], &cards!(Four of Spades, King of Clubs)),
    ("cards!(Four of Spades, Ace of Spades,)", &[8,48], &cards!(Four of Spades, Ace of Spades,)),
    ("cards!(Four of Spades, Ace of Hearts)", &[8,49], &cards!(Four of Spades, Ace of Hearts)),
    ("cards!(Four of Spades, Ace of Diamonds,)", &[8,50], &cards!(Four of Spades, Ace of Diamonds,)),
    ("cards!(Four of Spades, Ace of Clubs)", &[8,51], &cards!(Four of Spades, Ace of Clubs)),
    ("cards!(Four of Hearts, Two of Spades)", &[9,0], &cards!(Four of Hearts, Two of Spades)),
    ("cards!(Four of Hearts, Two of Hearts,)", &[9,1], &cards!(Four of Hearts, Two of Hearts,)),
    ("cards!(Four of Hearts, Two of Diamonds)", &[9,2], &cards!(Four of Hearts, Two of Diamonds)),
    ("cards!(Four of Hearts, Two of Clubs,)", &[9,3], &cards!(Four of Hearts, Two of Clubs,)),
    ("cards!(Four of Hearts, Three of Spades)", &[9,4], &cards!(Four of Hearts, Three of Spades)),
    ("cards!(Four of Hearts, Three of Hearts,)", &[9,5], &cards!(Four of Hearts, Three of Hearts,)),
    ("cards!(Four of Hearts, Three of Diamonds)", &[9,6], &cards!(Four of Hearts, Three of Diamonds)),
    ("cards!(Four of Hearts, Three of Clubs,)", &[9,7], &cards!(Four of Hearts, Three of Clubs,)),
    ("cards!(Four of Hearts, Four of Spades)", &[9,8], &cards!(Four of Hearts, Four of Spades)),
    ("cards!(Four of Hearts, Four of Hearts,)", &[9,9], &cards!(Four of Hearts, Four of Hearts,)),
    ("cards!(Four of Hearts, Four of Diamonds)", &[9,10], &cards!(Four of Hearts, Four of Diamonds)),
    ("cards!(Four of Hearts, Four of Clubs,)", &[9,11], &cards!(Four of Hearts, Four of Clubs,)),
    ("cards!(Four of Hearts, Five of Spades)", &[9,12], &cards!(Four of Hearts, Five of Spades)),
    ("cards!(Four of Hearts, Five of Hearts,)", &[9,13], &cards!(Four of Hearts, Five of Hearts,)),
    ("cards!(Four of Hearts, Five of Diamonds)", &[9,14], &cards!(Four of Hearts, Five of Diamonds)),
    ("cards!(Four of Hearts, Five of Clubs,)", &[9,15], &cards!(Four of Hearts, Five of Clubs,)),
    ("cards!(Four of Hearts, Six of Spades)", &[9,16], &cards!(Four of Hearts, Six of Spades)),
    ("cards!(Four of Hearts, Six of Hearts,)", &[9,17], &cards!(Four of Hearts, Six of Hearts,)),
    ("cards!(Four of Hearts, Six of Diamonds)", &[9,18], &cards!(Four of Hearts, Six of Diamonds)),
    ("cards!(Four of Hearts, Six of Clubs,)", &[9,19], &cards!(Four of Hearts, Six of Clubs,)),
    ("cards!(Four of Hearts, Seven of Spades)", &[9,20], &cards!(Four of Hearts, Seven of Spades)),
    ("cards!(Four of Hearts, Seven of Hearts,)", &[9,21], &cards!(Four of Hearts, Seven of Hearts,)),
    ("cards!(Four of Hearts, Seven of Diamonds)", &[9,22], &cards!(Four of Hearts, Seven of Diamonds)),
    ("cards!(Four of Hearts, Seven of Clubs,)", &[9,23], &cards!(Four of Hearts, Seven of Clubs,)),
    ("cards!(Four of Hearts, Eight of Spades)", &[9,24], &cards!(Four of Hearts, Eight of Spades)),
    ("cards!(Four of Hearts, Eight of Hearts,)", &[9,25], &cards!(Four of Hearts, Eight of Hearts,)),
    ("cards!(Four of Hearts, Eight of Diamonds)", &[9,26], &cards!(Four of Hearts, Eight of Diamonds)),
    ("cards!(Four of Hearts, Eight of Clubs,)", &[9,27], &cards!(Four of Hearts, Eight of Clubs,)),
    ("cards!(Four of Hearts, Nine of Spades)", &[9,28], &cards!(Four of Hearts, Nine of Spades)),
    ("cards!(Four of Hearts, Nine of Hearts,)", &[9,29], &cards!(Four of Hearts, Nine of Hearts,)),
    ("cards!(Four of Hearts, Nine of Diamonds)", &[9,30], &cards!(Four of Hearts, Nine of Diamonds)),
    ("cards!(Four of Hearts, Nine of Clubs,)", &[9,31], &cards!(Four of Hearts, Nine of Clubs,)),
    ("cards!(Four of Hearts, Ten of Spades)", &[9,32], &cards!(Four of Hearts, Ten of Spades)),
    ("cards!(Four of Hearts, Ten of Hearts,)", &[9,33], &cards!(Four of Hearts, Ten of Hearts,)),
    ("cards!(Four of Hearts, Ten of Diamonds)", &[9,34], &cards!(Four of Hearts, Ten of Diamonds)),
    ("cards!(Four of Hearts, Ten of Clubs,)", &[9,35], &cards!(Four of Hearts, Ten of Clubs,)),
    ("cards!(Four of Hearts, Jack of Spades)", &[9,36], &cards!(Four of Hearts, Jack of Spades)),
    ("cards!(Four of Hearts, Jack of Hearts,)", &[9,37], &cards!(Four of Hearts, Jack of Hearts,)),
    ("cards!(Four of Hearts, Jack of Diamonds)", &[9,38], &cards!(Four of Hearts, Jack of Diamonds)),
    ("cards!(Four of Hearts, Jack of Clubs,)", &[9,39], &cards!(Four of Hearts, Jack of Clubs,)),
    ("cards!(Four of Hearts, Queen of Spades)", &[9,40], &cards!(Four of Hearts, Queen of Spades)),
    ("cards!(Four of Hearts, Queen of Hearts,)", &[9,41], &cards!(Four of Hearts, Queen of Hearts,)),
    ("cards!(Four of Hearts, Queen of Diamonds)", &[9,42], &cards!(Four of Hearts, Queen of Diamonds)),
    ("cards!(Four of Hearts, Queen of Clubs,)", &[9,43], &cards!(Four of Hearts, Queen of Clubs,)),
    ("cards!(Four of Hearts, King of Spades)", &[9,44], &cards!(Four of Hearts, King of Spades)),
    ("cards!(Four of Hearts, King of Hearts,)", &[9,45], &cards!(Four of Hearts, King of Hearts,)),
    ("cards!(Four of Hearts, King of Diamonds)", &[9,46], &cards!(Four of Hearts, King of Diamonds)),
    ("cards!(Four of Hearts, King of Clubs,)", &[9,47], &cards!(Four of Hearts, King of Clubs,)),
    ("cards!(Four of Hearts, Ace of Spades)", &[9,48], &cards!(Four of Hearts, Ace of Spades)),
    ("cards!(Four of Hearts, Ace of Hearts,)", &[9,49], &cards!(Four of Hearts, Ace of Hearts,)),
    ("cards!(Four of Hearts, Ace of Diamonds)", &[9,50], &cards!(Four of Hearts, Ace of Diamonds)),
    ("cards!(Four of Hearts, Ace of Clubs,)", &[9,51], &cards!(Four of Hearts, Ace of Clubs,)),
    ("cards!(Four of Diamonds, Two of Spades,)", &[10,0], &cards!(Four of Diamonds, Two of Spades,)),
    ("cards!(Four of Diamonds, Two of Hearts)", &[10,1], &cards!(Four of Diamonds, Two of Hearts)),
    ("cards!(Four of Diamonds, Two of Diamonds,)", &[10,2], &cards!(Four of Diamonds, Two of Diamonds,)),
    ("cards!(Four of Diamonds, Two of Clubs)", &[10,3], &cards!(Four of Diamonds, Two of Clubs)),
    ("cards!(Four of Diamonds, Three of Spades,)", &[10,4], &cards!(Four of Diamonds, Three of Spades,)),
    ("cards!(Four of Diamonds, Three of Hearts)", &[10,5], &cards!(Four of Diamonds, Three of Hearts)),
    ("cards!(Four of Diamonds, Three of Diamonds,)", &[10,6], &cards!(Four of Diamonds, Three of Diamonds,)),
    ("cards!(Four of Diamonds, Three of Clubs)", &[10,7], &cards!(Four of Diamonds, Three of Clubs)),
    ("cards!(Four of Diamonds, Four of Spades,)", &[10,8], &cards!(Four of Diamonds, Four of Spades,)),
    ("cards!(Four of Diamonds, Four of Hearts)", &[10,9], &cards!(Four of Diamonds, Four of Hearts)),
    ("cards!(Four of Diamonds, Four of Diamonds,)", &[10,10], &cards!(Four of Diamonds, Four of Diamonds,)),
    ("cards!(Four of Diamonds, Four of Clubs)", &[10,11], &cards!(Four of Diamonds, Four of Clubs)),
    ("cards!(Four of Diamonds, Five of Spades,)", &[10,12], &cards!(Four of Diamonds, Five of Spades,)),
    ("cards!(Four of Diamonds, Five of Hearts)", &[10,13], &cards!(Four of Diamonds, Five of Hearts)),
    ("cards!(Four of Diamonds, Five of Diamonds,)", &[10,14], &cards!(Four of Diamonds, Five of Diamonds,)),
    ("cards!(Four of Diamonds, Five of Clubs)", &[10,15], &cards!(Four of Diamonds, Five of Clubs)),
    ("cards!(Four of Diamonds, Six of Spades,)", &[10,16], &cards!(Four of Diamonds, Six of Spades,)),
    ("cards!(Four of Diamonds, Six of Hearts)", &[10,17], &cards!(Four of Diamonds, Six of Hearts)),
    ("cards!(Four of Diamonds, Six of Diamonds,)", &[10,18], &cards!(Four of Diamonds, Six of Diamonds,)),
    ("cards!(Four of Diamonds, Six of Clubs)", &[10,19], &cards!(Four of Diamonds, Six of Clubs)),
    ("cards!(Four of Diamonds, Seven of Spades,)", &[10,20], &cards!(Four of Diamonds, Seven of Spades,)),
    ("cards!(Four of Diamonds, Seven of Hearts)", &[10,21], &cards!(Four of Diamonds, Seven of Hearts)),
    ("cards!(Four of Diamonds, Seven of Diamonds,)", &[10,22], &cards!(Four of Diamonds, Seven of Diamonds,)),
    ("cards!(Four of Diamonds, Seven of Clubs)", &[10,23], &cards!(Four of Diamonds, Seven of Clubs)),
    ("cards!(Four of Diamonds, Eight of Spades,)", &[10,24], &cards!(Four of Diamonds, Eight of Spades,)),
    ("cards!(Four of Diamonds, Eight of Hearts)", &[10,25], &cards!(Four of Diamonds, Eight of Hearts)),
    ("cards!(Four of Diamonds, Eight of Diamonds,)", &[10,26], &cards!(Four of Diamonds, Eight of Diamonds,)),
    ("cards!(Four of Diamonds, Eight of Clubs)", &[10,27], &cards!(Four of Diamonds, Eight of Clubs)),
    ("cards!(Four of Diamonds, Nine of Spades,)", &[10,28], &cards!(Four of Diamonds, Nine of Spades,)),
    ("cards!(Four of Diamonds, Nine of Hearts)", &[10,29], &cards!(Four of Diamonds, Nine of Hearts)),
    ("cards!(Four of Diamonds, Nine of Diamonds,)", &[10,30], &cards!(Four of Diamonds, Nine of Diamonds,)),
    ("cards!(Four of Diamonds, Nine of Clubs)", &[10,31], &cards!(Four of Diamonds, Nine of Clubs)),
    ("cards!(Four of Diamonds, Ten of Spades,)", &[10,32], &cards!(Four of Diamonds, Ten of Spades,)),
    ("cards!(Four of Diamonds, Ten of Hearts)", &[10,33], &cards!(Four of Diamonds, Ten of Hearts)),
    ("cards!(Four of Diamonds, Ten of Diamonds,)", &[10,34], &cards!(Four of Diamonds, Ten of Diamonds,)),
    ("cards!(Four of Diamonds, Ten of Clubs)", &[10,35], &cards!(Four of Diamonds, Ten of Clubs)),
    ("cards!(Four of Diamonds, Jack of Spades,)", &[10,36], &cards!(Four of Diamonds, Jack of Spades,)),
    ("cards!(Four of Diamonds, Jack of Hearts)", &[10,37], &cards!(Four of Diamonds, Jack of Hearts)),
    ("cards!(Four of Diamonds, Jack of Diamonds,)", &[10,38], &cards!(Four of Diamonds, Jack of Diamonds,)),
    ("cards!(Four of Diamonds, Jack of Clubs)", &[10,39], &cards!(Four of Diamonds, Jack of Clubs)),
    ("cards!(Four of Diamonds, Queen of Spades,)", &[10,40], &cards!(Four of Diamonds, Queen of Spades,)),
    ("cards!(Four of Diamonds, Queen of Hearts)", &[10,41], &cards!(Four of Diamonds, Queen of Hearts)),
    ("cards!(Four of Diamonds, Queen of Diamonds,)", &[10,42], &cards!(Four of Diamonds, Queen of Diamonds,)),
    ("cards!(Four of Diamonds, Queen of Clubs)", &[10,43], &cards!(Four of Diamonds, Queen of Clubs)),
    ("cards!(Four of Diamonds, King of Spades,)", &[10,44], &cards!(Four of Diamonds, King of Spades,)),
    ("cards!(Four of Diamonds, King of Hearts)", &[10,45], &cards!(Four of Diamonds, King of Hearts)),
    ("cards!(Four of Diamonds, King of Diamonds,)", &[10,46], &cards!(Four of Diamonds, King of Diamonds,)),
    ("cards!(Four of Diamonds, King of Clubs)", &[10,47], &cards!(Four of Diamonds, King of Clubs)),
    ("cards!(Four of Diamonds, Ace of Spades,)", &[10,48], &cards!(Four of Diamonds, Ace of Spades,)),
    ("cards!(Four of Diamonds, Ace of Hearts)", &[10,49], &cards!(Four of Diamonds, Ace of Hearts)),
    ("cards!(Four of Diamonds, Ace of Diamonds,)", &[10,50], &cards!(Four of Diamonds, Ace of Diamonds,)),
    ("cards!(Four of Diamonds, Ace of Clubs)", &[10,51], &cards!(Four of Diamonds, Ace of Clubs)),
    ("cards!(Four of Clubs, Two of Spades)", &[11,0], &cards!(Four of Clubs, Two of Spades)),
    ("cards!(Four of Clubs, Two of Hearts,)", &[11,1], &cards!(Four of Clubs, Two of Hearts,)),
    ("cards!(Four of Clubs, Two of Diamonds)", &[11,2], &cards!(Four of Clubs, Two of Diamonds)),
    ("cards!(Four of Clubs, Two of Clubs,)", &[11,3], &cards!(Four of Clubs, Two of Clubs,)),
    ("cards!(Four of Clubs, Three of Spades)", &[11,4], &cards!(Four of Clubs, Three of Spades)),
    ("cards!(Four of Clubs, Three of Hearts,)", &[11,5], &cards!(Four of Clubs, Three of Hearts,)),
    ("cards!(Four of Clubs, Three of Diamonds)", &[11,6], &cards!(Four of Clubs, Three of Diamonds)),
    ("cards!(Four of Clubs, Three of Clubs,)", &[11,7], &cards!(Four of Clubs, Three of Clubs,)),
    ("cards!(Four of Clubs, Four of Spades)", &[11,8], &cards!(Four of Clubs, Four of Spades)),
    ("cards!(Four of Clubs, Four of Hearts,)", &[11,9], &cards!(Four of Clubs, Four of Hearts,)),
    ("cards!(Four of Clubs, Four of Diamonds)", &[11,10], &cards!(Four of Clubs, Four of Diamonds)),
    ("cards!(Four of Clubs, Four of Clubs,)", &[11,11], &cards!(Four of Clubs, Four of Clubs,)),
    ("cards!(Four of Clubs, Five of Spades)", &[11,12], &cards!(Four of Clubs, Five of Spades)),
    ("cards!(Four of Clubs, Five of Hearts,)", &[11,13], &cards!(Four of Clubs, Five of Hearts,)),
    ("cards!(Four of Clubs, Five of Diamonds)", &[11,14], &cards!(Four of Clubs, Five of Diamonds)),
    ("cards!(Four of Clubs, Five of Clubs,)", &[11,15], &cards!(Four of Clubs, Five of Clubs,)),
    ("cards!(Four of Clubs, Six of Spades)", &[11,16], &cards!(Four of Clubs, Six of Spades)),
    ("cards!(Four of Clubs, Six of Hearts,)", &[11,17], &cards!(Four of Clubs, Six of Hearts,)),
    ("cards!(Four of Clubs, Six of Diamonds)", &[11,18], &cards!(Four of Clubs, Six of Diamonds)),
    ("cards!(Four of Clubs, Six of Clubs,)", &[11,19], &cards!(Four of Clubs, Six of Clubs,)),
    ("cards!(Four of Clubs, Seven of Spades)", &[11,20], &cards!(Four of Clubs, Seven of Spades)),
    ("cards!(Four of Clubs, Seven of Hearts,)", &[11,21], &cards!(Four of Clubs, Seven of Hearts,)),
    ("cards!(Four of Clubs, Seven of Diamonds)", &[11,22], &cards!(Four of Clubs, Seven of Diamonds)),
    ("cards!(Four of Clubs, Seven of Clubs,)", &[11,23], &cards!(Four of Clubs, Seven of Clubs,)),
    ("cards!(Four of Clubs, Eight of Spades)", &[11,24], &cards!(Four of Clubs, Eight of Spades)),
    ("cards!(Four of Clubs, Eight of Hearts,)", &[11,25], &cards!(Four of Clubs, Eight of Hearts,)),
    ("cards!(Four of Clubs, Eight of Diamonds)", &[11,26], &cards!(Four of Clubs, Eight of Diamonds)),
    ("cards!(Four of Clubs, Eight of Clubs,)", &[11,27], &cards!(Four of Clubs, Eight of Clubs,)),
    ("cards!(Four of Clubs, Nine of Spades)", &[11,28], &cards!(Four of Clubs, Nine of Spades)),
    ("cards!(Four of Clubs, Nine of Hearts,)", &[11,29], &cards!(Four of Clubs, Nine of Hearts,)),
    ("cards!(Four of Clubs, Nine of Diamonds)", &[11,30], &cards!(Four of Clubs, Nine of Diamonds)),
    ("cards!(Four of Clubs, Nine of Clubs,)", &[11,31], &cards!(Four of Clubs, Nine of Clubs,)),
    ("cards!(Four of Clubs, Ten of Spades)", &[11,32], &cards!(Four of Clubs, Ten of Spades)),
    ("cards!(Four of Clubs, Ten of Hearts,)", &[11,33], &cards!(Four of Clubs, Ten of Hearts,)),
    ("cards!(Four of Clubs, Ten of Diamonds)", &[11,34], &cards!(Four of Clubs, Ten of Diamonds)),
    ("cards!(Four of Clubs, Ten of Clubs,)", &[11,35], &cards!(Four of Clubs, Ten of Clubs,)),
    ("cards!(Four of Clubs, Jack of Spades)", &[11,36], &cards!(Four of Clubs, Jack of Spades)),
    ("cards!(Four of Clubs, Jack of Hearts,)", &[11,37], &cards!(Four of Clubs, Jack of Hearts,)),
    ("cards!(Four of Clubs, Jack of Diamonds)", &[11,38], &cards!(Four of Clubs, Jack of Diamonds)),
    ("cards!(Four of Clubs, Jack of Clubs,)", &[11,39], &cards!(Four of Clubs, Jack of Clubs,)),
    ("cards!(Four of Clubs, Queen of Spades)", &[11,40], &cards!(Four of Clubs, Queen of Spades)),
    ("cards!(Four of Clubs, Queen of Hearts,)", &[11,41], &cards!(Four of Clubs, Queen of Hearts,)),
    ("cards!(Four of Clubs, Queen of Diamonds)", &[11,42], &cards!(Four of Clubs, Queen of Diamonds)),
    ("cards!(Four of Clubs, Queen of Clubs,)", &[11,43], &cards!(Four of Clubs, Queen of Clubs,)),
    ("cards!(Four of Clubs, King of Spades)", &[11,44], &cards!(Four of Clubs, King of Spades)),
    ("cards!(Four of Clubs, King of Hearts,)", &[11,45], &cards!(Four of Clubs, King of Hearts,)),
    ("cards!(Four of Clubs, King of Diamonds)", &[11,46], &cards!(Four of Clubs, King of Diamonds)),
    ("cards!(Four of Clubs, King of Clubs,)", &[11,47], &cards!(Four of Clubs, King of Clubs,)),
    ("cards!(Four of Clubs, Ace of Spades)", &[11,48], &cards!(Four of Clubs, Ace of Spades)),
    ("cards!(Four of Clubs, Ace of Hearts,)", &[11,49], &cards!(Four of Clubs, Ace of Hearts,)),
    ("cards!(Four of Clubs, Ace of Diamonds)", &[11,50], &cards!(Four of Clubs, Ace of Diamonds)),
    ("cards!(Four of Clubs, Ace of Clubs,)", &[11,51], &cards!(Four of Clubs, Ace of Clubs,)),
    ("cards!(Five of Spades, Two of Spades,)", &[12,0], &cards!(Five of Spades, Two of Spades,)),
    ("cards!(Five of Spades, Two of Hearts)", &[12,1], &cards!(Five of Spades, Two of Hearts)),
    ("cards!(Five of Spades, Two of Diamonds,)", &[12,2], &cards!(Five of Spades, Two of Diamonds,)),
    ("cards!(Five of Spades, Two of Clubs)", &[12,3], &cards!(Five of Spades, Two of Clubs)),
    ("cards!(Five of Spades, Three of Spades,)", &[12,4], &cards!(Five of Spades, Three of Spades,)),
    ("cards!(Five of Spades, Three of Hearts)", &[12,5], &cards!(Five of Spades, Three of Hearts)),
    ("cards!(Five of Spades, Three of Diamonds,)", &[12,6], &cards!(Five of Spades, Three of Diamonds,)),
    ("cards!(Five of Spades, Three of Clubs)", &[12,7], &cards!(Five of Spades, Three of Clubs)),
    ("cards!(Five of Spades, Four of Spades,)", &[12,8], &cards!(Five of Spades, Four of Spades,)),
    ("cards!(Five of Spades, Four of Hearts)", &[12,9], &cards!(Five of Spades, Four of Hearts)),
    ("cards!(Five of Spades, Four of Diamonds,)", &[12,10], &cards!(Five of Spades, Four of Diamonds,)),
    ("cards!(Five of Spades, Four of Clubs)", &[12,11], &cards!(Five of Spades, Four of Clubs)),
    ("cards!(Five of Spades, Five of Spades,)", &[12,12], &cards!(Five of Spades, Five of Spades,)),
    ("cards!(Five of Spades, Five of Hearts)", &[12,13], &cards!(Five of Spades, Five of Hearts)),
    ("cards!(Five of Spades, Five of Diamonds,)", &[12,14], &cards!(Five of Spades, Five of Diamonds,)),
    ("cards!(Five of Spades, Five of Clubs)", &[12,15], &cards!(Five of Spades, Five of Clubs)),
    ("cards!(Five of Spades, Six of Spades,)", &[12,16], &cards!(Five of Spades, Six of Spades,)),
    ("cards!(Five of Spades, Six of Hearts)", &[12,17], &cards!(Five of Spades, Six of Hearts)),
    ("cards!(Five of Spades, Six of Diamonds,)", &[12,18], &cards!(Five of Spades, Six of Diamonds,)),
    ("cards!(Five of Spades, Six of Clubs)", &[12,19], &cards!(Five of Spades, Six of Clubs)),
    ("cards!(Five of Spades, Seven of Spades,)", &[12,20], &cards!(Five of Spades, Seven of Spades,)),
    ("cards!(Five of Spades, Seven of Hearts)", &[12,21], &cards!(Five of Spades, Seven of Hearts)),
    ("cards!(Five of Spades, Seven of Diamonds,)", &[12,22], &cards!(Five of Spades, Seven of Diamonds,)),
    ("cards!(Five of Spades, Seven of Clubs)", &[12,23], &cards!(Five of Spades, Seven of Clubs)),
    ("cards!(Five of Spades, Eight of Spades,)", &[12,24], &cards!(Five of Spades, Eight of Spades,)),
    ("cards!(Five of Spades, Eight of Hearts)", &[12,25], &cards!(Five of Spades, Eight of Hearts)),
    ("cards!(Five of Spades, Eight of Diamonds,)", &[12,26], &cards!(Five of Spades, Eight of Diamonds,)),
    ("cards!(Five of Spades, Eight of Clubs)", &[12,27], &cards!(Five of Spades, Eight of Clubs)),
    ("cards!(Five of Spades, Nine of Spades,)", &[12,28], &cards!(Five of Spades, Nine of Spades,)),
    ("cards!(Five of Spades, Nine of Hearts)", &[12,29], &cards!(Five of Spades, Nine of Hearts)),
    ("cards!(Five of Spades, Nine of Diamonds,)", &[12,30], &cards!(Five of Spades, Nine of Diamonds,)),
    ("cards!(Five of Spades, Nine of Clubs)", &[12,31], &cards!(Five of Spades, Nine of Clubs)),
    ("cards!(Five of Spades, Ten of Spades,)", &[12,32], &cards!(Five of Spades, Ten of Spades,)),
    ("cards!(Five of Spades, Ten of Hearts)", &[12,33], &cards!(Five of Spades, Ten of Hearts)),
    ("cards!(Five of Spades, Ten of Diamonds,)", &[12,34], &cards!(Five of Spades, Ten of Diamonds,)),
    ("cards!(Five of Spades, Ten of Clubs)", &[12,35], &cards!(Five of Spades, Ten of Clubs)),
    ("cards!(Five of Spades, Jack of Spades,)", &[12,36], &cards!(Five of Spades, Jack of Spades,)),
    ("cards!(Five of Spades, Jack of Hearts)", &[12,37], &cards!(Five of Spades, Jack of Hearts)),
    ("cards!(Five of Spades, Jack of Diamonds,)", &[12,38], &cards!(Five of Spades, Jack of Diamonds,)),
    ("cards!(Five of Spades, Jack of Clubs)", &[12,39], &cards!(Five of Spades, Jack of Clubs)),
    ("cards!(Five of Spades, Queen of Spades,)", &[12,40], &cards!(Five of Spades, Queen of Spades,)),
    ("cards!(Five of Spades, Queen of Hearts)", &[12,41], &cards!(Five of Spades, Queen of Hearts)),
    ("cards!(Five of Spades, Queen of Diamonds,)", &[12,42], &cards!(Five of Spades, Queen of Diamonds,)),
    ("cards!(Five of Spades, Queen of Clubs)", &[12,43], &cards!(Five of Spades, Queen of Clubs)),
    ("cards!(Five of Spades, King of Spades,)", &[12,44], &cards!(Five of Spades, King of Spades,)),
    ("cards!(Five of Spades, King of Hearts)", &[12,45], &cards!(Five of Spades, King of Hearts)),
    ("cards!(Five of Spades, King of Diamonds,)", &[12,46], &cards!(Five of Spades, King of Diamonds,)),
    ("cards!(Five of Spades, King of Clubs)", &[12,47], &cards!(Five of Spades, King of Clubs)),
    ("cards!(Five of Spades, Ace of Spades,)", &[12,48], &cards!(Five of Spades, Ace of Spades,)),
    ("cards!(Five of Spades, Ace of Hearts)", &[12,49], &cards!(Five of Spades, Ace of Hearts)),
    ("cards!(Five of Spades, Ace of Diamonds,)", &[12,50], &cards!(Five of Spades, Ace of Diamonds,)),
    ("cards!(Five of Spades, Ace of Clubs)", &[12,51], &cards!(Five of Spades, Ace of Clubs)),
    ("cards!(Five of Hearts, Two of Spades)", &[13,0], &cards!(Five of Hearts, Two of Spades)),
    ("cards!(Five of Hearts, Two of Hearts,)", &[13,1], &cards!(Five of Hearts, Two of Hearts,)),
    ("cards!(Five of Hearts, Two of Diamonds)", &[13,2], &cards!(Five of Hearts, Two of Diamonds)),
    ("cards!(Five of Hearts, Two of Clubs,)", &[13,3], &cards!(Five of Hearts, Two of Clubs,)),
    ("cards!(Five of Hearts, Three of Spades)", &[13,4], &cards!(Five of Hearts, Three of Spades)),
    ("cards!(Five of Hearts, Three of Hearts,)", &[13,5], &cards!(Five of Hearts, Three of Hearts,)),
    ("cards!(Five of Hearts, Three of Diamonds)", &[13,6], &cards!(Five of Hearts, Three of Diamonds)),
    ("cards!(Five of Hearts, Three of Clubs,)", &[13,7], &cards!(Five of Hearts, Three of Clubs,)),
    ("cards!(Five of Hearts, Four of Spades)", &[13,8], &cards!(Five of Hearts, Four of Spades)),
    ("cards!(Five of Hearts, Four of Hearts,)", &[13,9], &cards!(Five of Hearts, Four of Hearts,)),
    ("cards!(Five of Hearts, Four of Diamonds)", &[13,10], &cards!(Five of Hearts, Four of Diamonds)),
    ("cards!(Five of Hearts, Four of Clubs,)", &[13,11], &cards!(Five of Hearts, Four of Clubs,)),
    ("cards!(Five of Hearts, Five of Spades)", &[13,12], &cards!(Five of Hearts, Five of Spades)),
    ("cards!(Five of Hearts, Five of Hearts,)", &[13,13], &cards!(Five of Hearts, Five of Hearts,)),
    ("cards!(Five of Hearts, Five of Diamonds)", &[13,14], &cards!(Five of Hearts, Five of Diamonds)),
    ("cards!(Five of Hearts, Five of Clubs,)", &[13,15], &cards!(Five of Hearts, Five of Clubs,)),
    ("cards!(Five of Hearts, Six of Spades)", &[13,16], &cards!(Five of Hearts, Six of Spades)),
    ("cards!(Five of Hearts, Six of Hearts,)", &[13,17], &cards!(Five of Hearts, Six of Hearts,)),
    ("cards!(Five of Hearts, Six of Diamonds)", &[13,18], &cards!(Five of Hearts, Six of Diamonds)),
    ("cards!(Five of Hearts, Six of Clubs,)", &[13,19], &cards!(Five of Hearts, Six of Clubs,)),
    ("cards!(Five of Hearts, Seven of Spades)", &[13,20], &cards!(Five of Hearts, Seven of Spades)),
    ("cards!(Five of Hearts, Seven of Hearts,)", &[13,21], &cards!(Five of Hearts, Seven of Hearts,)),
    ("cards!(Five of Hearts, Seven of Diamonds)", &[13,22], &cards!(Five of Hearts, Seven of Diamonds)),
    ("cards!(Five of Hearts, Seven of Clubs,)", &[13,23], &cards!(Five of Hearts, Seven of Clubs,)),
    ("cards!(Five of Hearts, Eight of Spades)", &[13,24], &cards!(Five of Hearts, Eight of Spades)),
    ("cards!(Five of Hearts, Eight of Hearts,)", &[13,25], &cards!(Five of Hearts, Eight of Hearts,)),
    ("cards!(Five of Hearts, Eight of Diamonds)", &[13,26], &cards!(Five of Hearts, Eight of Diamonds)),
    ("cards!(Five of Hearts, Eight of Clubs,)", &[13,27], &cards!(Five of Hearts, Eight of Clubs,)),
    ("cards!(Five of Hearts, Nine of Spades)", &[13,28], &cards!(Five of Hearts, Nine of Spades)),
    ("cards!(Five of Hearts, Nine of Hearts,)", &[13,29], &cards!(Five of Hearts, Nine of Hearts,)),
    ("cards!(Five of Hearts, Nine of Diamonds)", &[13,30], &cards!(Five of Hearts, Nine of Diamonds)),
    ("cards!(Five of Hearts, Nine of Clubs,)", &[13,31], &cards!(Five of Hearts, Nine of Clubs,)),
    ("cards!(Five of Hearts, Ten of Spades)", &[13,32], &cards!(Five of Hearts, Ten of Spades)),
    ("cards!(Five of Hearts, Ten of Hearts,)", &[13,33], &cards!(Five of Hearts, Ten of Hearts,)),
    ("cards!(Five of Hearts, Ten of Diamonds)", &[13,34], &cards!(Five of Hearts, Ten of Diamonds)),
    ("cards!(Five of Hearts, Ten of Clubs,)", &[13,35], &cards!(Five of Hearts, Ten of Clubs,)),
    ("cards!(Five of Hearts, Jack of Spades)", &[13,36], &cards!(Five of Hearts, Jack of Spades)),
    ("cards!(Five of Hearts, Jack of Hearts,)", &[13,37], &cards!(Five of Hearts, Jack of Hearts,)),
    ("cards!(Five of Hearts, Jack of Diamonds)", &[13,38], &cards!(Five of Hearts, Jack of Diamonds)),
    ("cards!(Five of Hearts, Jack of Clubs,)", &[13,39], &cards!(Five of Hearts, Jack of Clubs,)),
    ("cards!(Five of Hearts, Queen of Spades)", &[13,40], &cards!(Five of Hearts, Queen of Spades)),
    ("cards!(Five of Hearts, Queen of Hearts,)", &[13,41], &cards!(Five of Hearts, Queen of Hearts,)),
    ("cards!(Five of Hearts, Queen of Diamonds)", &[13,42], &cards!(Five of Hearts, Queen of Diamonds)),
    ("cards!(Five of Hearts, Queen of Clubs,)", &[13,43], &cards!(Five of Hearts, Queen of Clubs,)),
    ("cards!(Five of Hearts, King of Spades)", &[13,44], &cards!(Five of Hearts, King of Spades)),
    ("cards!(Five of Hearts, King of Hearts,)", &[13,45], &cards!(Five of Hearts, King of Hearts,)),
    ("cards!(Five of Hearts, King of Diamonds)", &[13,46], &cards!(Five of Hearts, King of Diamonds)),
    ("cards!(Five of Hearts, King of Clubs,)", &[13,47], &cards!(Five of Hearts, King of Clubs,)),
    ("cards!(Five of Hearts, Ace of Spades)", &[13,48], &cards!(Five of Hearts, Ace of Spades)),
    ("cards!(Five of Hearts, Ace of Hearts,)", &[13,49], &cards!(Five of Hearts, Ace of Hearts,)),
    ("cards!(Five of Hearts, Ace of Diamonds)", &[13,50], &cards!(Five of Hearts, Ace of Diamonds)),
    ("cards!(Five of Hearts, Ace of Clubs,)", &[13,51], &cards!(Five of Hearts, Ace of Clubs,)),
    ("cards!(Five of Diamonds, Two of Spades,)", &[14,0], &cards!(Five of Diamonds, Two of Spades,)),
    ("cards!(Five of Diamonds, Two of Hearts)", &[14,1], &cards!(Five of Diamonds, Two of Hearts)),
    ("cards!(Five of Diamonds, Two of Diamonds,)", &[14,2], &cards!(Five of Diamonds, Two of Diamonds,)),
    ("cards!(Five of Diamonds, Two of Clubs)", &[14,3], &cards!(Five of Diamonds, Two of Clubs)),
    ("cards!(Five of Diamonds, Three of Spades,)", &[14,4], &cards!(Five of Diamonds, Three of Spades,)),
    ("cards!(Five of Diamonds, Three of Hearts)", &[14,5], &cards!(Five of Diamonds, Three of Hearts)),
    ("cards!(Five of Diamonds, Three of Diamonds,)", &[14,6], &cards!(Five of Diamonds, Three of Diamonds,)),
    ("cards!(Five of Diamonds, Three of Clubs)", &[14,7], &cards!(Five of Diamonds, Three of Clubs)),
    ("cards!(Five of Diamonds, Four of Spades,)", &[14,8], &cards!(Five of Diamonds, Four of Spades,)),
    ("cards!(Five of Diamonds, Four of Hearts)", &[14,9], &cards!(Five of Diamonds, Four of Hearts)),
    ("cards!(Five of Diamonds, Four of Diamonds,)", &[14,10], &cards!(Five of Diamonds, Four of Diamonds,)),
    ("cards!(Five of Diamonds, Four of Clubs)", &[14,11], &cards!(Five of Diamonds, Four of Clubs)),
    ("cards!(Five of Diamonds, Five of Spades,)", &[14,12], &cards!(Five of Diamonds, Five of Spades,)),
    ("cards!(Five of Diamonds, Five of Hearts)", &[14,13], &cards!(Five of Diamonds, Five of Hearts)),
    ("cards!(Five of Diamonds, Five of Diamonds,)", &[14,14], &cards!(Five of Diamonds, Five of Diamonds,)),
    ("cards!(Five of Diamonds, Five of Clubs)", &[14,15], &cards!(Five of Diamonds, Five of Clubs)),
    ("cards!(Five of Diamonds, Six of Spades,)", &[14,16], &cards!(Five of Diamonds, Six of Spades,)),
    ("cards!(Five of Diamonds, Six of Hearts)", &[14,17], &cards!(Five of Diamonds, Six of Hearts)),
    ("cards!(Five of Diamonds, Six of Diamonds,)", &[14,18], &cards!(Five of Diamonds, Six of Diamonds,)),
    ("cards!(Five of Diamonds, Six of Clubs)", &[14,19], &cards!(Five of Diamonds, Six of Clubs)),
    ("cards!(Five of Diamonds, Seven of Spades,)", &[14,20], &cards!(Five of Diamonds, Seven of Spades,)),
    ("cards!(Five of Diamonds, Seven of Hearts)", &[14,21], &cards!(Five of Diamonds, Seven of Hearts)),
    ("cards!(Five of Diamonds, Seven of Diamonds,)", &[14,22], &cards!(Five of Diamonds, Seven of Diamonds,)),
    ("cards!(Five of Diamonds, Seven of Clubs)", &[14,23], &cards!(Five of Diamonds, Seven of Clubs)),
    ("cards!(Five of Diamonds, Eight of Spades,)", &[14,24], &cards!(Five of Diamonds, Eight of Spades,)),
    ("cards!(Five of Diamonds, Eight of Hearts)", &[14,25], &cards!(Five of Diamonds, Eight of Hearts)),
    ("cards!(Five of Diamonds, Eight of Diamonds,)", &[14,26], &cards!(Five of Diamonds, Eight of Diamonds,)),
    ("cards!(Five of Diamonds, Eight of Clubs)", &[14,27], &cards!(Five of Diamonds, Eight of Clubs)),
    ("cards!(Five of Diamonds, Nine of Spades,)", &[14,28], &cards!(Five of Diamonds, Nine of Spades,)),
    ("cards!(Five of Diamonds, Nine of Hearts)", &[14,29], &cards!(Five of Diamonds, Nine of Hearts)),
    ("cards!(Five of Diamonds, Nine of Diamonds,)", &[14,30], &cards!(Five of Diamonds, Nine of Diamonds,)),
    ("cards!(Five of Diamonds, Nine of Clubs)", &[14,31], &cards!(Five of Diamonds, Nine of Clubs)),
    ("cards!(Five of Diamonds, Ten of Spades,)", &[14,32], &cards!(Five of Diamonds, Ten of Spades,)),
    ("cards!(Five of Diamonds, Ten of Hearts)", &[14,33], &cards!(Five of Diamonds, Ten of Hearts)),
    ("cards!(Five of Diamonds, Ten of Diamonds,)", &[14,34], &cards!(Five of Diamonds, Ten of Diamonds,)),
    ("cards!(Five of Diamonds, Ten of Clubs)", &[14,35], &cards!(Five of Diamonds, Ten of Clubs)),
    ("cards!(Five of Diamonds, Jack of Spades,)", &[14,36], &cards!(Five of Diamonds, Jack of Spades,)),
    ("cards!(Five of Diamonds, Jack of Hearts)", &[14,37], &cards!(Five of Diamonds, Jack of Hearts)),
    ("cards!(Five of Diamonds, Jack of Diamonds,)", &[14,38], &cards!(Five of Diamonds, Jack of Diamonds,)),
    ("cards!(Five of Diamonds, Jack of Clubs)", &[14,39], &cards!(Five of Diamonds, Jack of Clubs)),
    ("cards!(Five of Diamonds, Queen of Spades,)", &[14,40], &cards!(Five of Diamonds, Queen of Spades,)),
    ("cards!(Five of Diamonds, Queen of Hearts)", &[14,41], &cards!(Five of Diamonds, Queen of Hearts)),
    ("cards!(Five of Diamonds, Queen of Diamonds,)", &[14,42], &cards!(Five of Diamonds, Queen of Diamonds,)),
    ("cards!(Five of Diamonds, Queen of Clubs)", &[14,43], &cards!(Five of Diamonds, Queen of Clubs)),
    ("cards!(Five of Diamonds, King of Spades,)", &[14,44], &cards!(Five of Diamonds, King of Spades,)),
    ("cards!(Five of Diamonds, King of Hearts)", &[14,45], &cards!(Five of Diamonds, King of Hearts)),
    ("cards!(Five of Diamonds, King of Diamonds,)", &[14,46], &cards!(Five of Diamonds, King of Diamonds,)),
    ("cards!(Five of Diamonds, King of Clubs)", &[14,47], &cards!(Five of Diamonds, King of Clubs)),
    ("cards!(Five of Diamonds, Ace of Spades,)", &[14,48], &cards!(Five of Diamonds, Ace of Spades,)),
    ("cards!(Five of Diamonds, Ace of Hearts)", &[14,49], &cards!(Five of Diamonds, Ace of Hearts)),
    ("cards!(Five of Diamonds, Ace of Diamonds,)", &[14,50], &cards!(Five of Diamonds, Ace of Diamonds,)),
    ("cards!(Five of Diamonds, Ace of Clubs)", &[14,51], &cards!(Five of Diamonds, Ace of Clubs)),
    ("cards!(Five of Clubs, Two of Spades)", &[15,0], &cards!(Five of Clubs, Two of Spades)),
    ("cards!(Five of Clubs, Two of Hearts,)", &[15,1], &cards!(Five of Clubs, Two of Hearts,)),
    ("cards!(Five of Clubs, Two of Diamonds)", &[15,2], &cards!(Five of Clubs, Two of Diamonds)),
    ("cards!(Five of Clubs, Two of Clubs,)", &[15,3], &cards!(Five of Clubs, Two of Clubs,)),
    ("cards!(Five of Clubs, Three of Spades)", &[15,4], &cards!(Five of Clubs, Three of Spades)),
    ("cards!(Five of Clubs, Three of Hearts,)", &[15,5], &cards!(Five of Clubs, Three of Hearts,)),
    ("cards!(Five of Clubs, Three of Diamonds)", &[15,6], &cards!(Five of Clubs, Three of Diamonds)),
    ("cards!(Five of Clubs, Three of Clubs,)", &[15,7], &cards!(Five of Clubs, Three of Clubs,)),
    ("cards!(Five of Clubs, Four of Spades)", &[15,8], &cards!(Five of Clubs, Four of Spades)),
    ("cards!(Five of Clubs, Four of Hearts,)", &[15,9], &cards!(Five of Clubs, Four of Hearts,)),
    ("cards!(Five of Clubs, Four of Diamonds)", &[15,10], &cards!(Five of Clubs, Four of Diamonds)),
    ("cards!(Five of Clubs, Four of Clubs,)", &[15,11], &cards!(Five of Clubs, Four of Clubs,)),
    ("cards!(Five of Clubs, Five of Spades)", &[15,12], &cards!(Five of Clubs, Five of Spades)),
    ("cards!(Five of Clubs, Five of Hearts,)", &[15,13], &cards!(Five of Clubs, Five of Hearts,)),
    ("cards!(Five of Clubs, Five of Diamonds)", &[15,14], &cards!(Five of Clubs, Five of Diamonds)),
    ("cards!(Five of Clubs, Five of Clubs,)", &[15,15], &cards!(Five of Clubs, Five of Clubs,)),
    ("cards!(Five of Clubs, Six of Spades)", &[15,16], &cards!(Five of Clubs, Six of Spades)),
    ("cards!(Five of Clubs, Six of Hearts,)", &[15,17], &cards!(Five of Clubs, Six of Hearts,)),
    ("cards!(Five of Clubs, Six of Diamonds)", &[15,18], &cards!(Five of Clubs, Six of Diamonds)),
    ("cards!(Five of Clubs, Six of Clubs,)", &[15,19], &cards!(Five of Clubs, Six of Clubs,)),
    ("cards!(Five of Clubs, Seven of Spades)", &[15,20], &cards!(Five of Clubs, Seven of Spades)),
    ("cards!(Five of Clubs, Seven of Hearts,)", &[15,21], &cards!(Five of Clubs, Seven of Hearts,)),
    ("cards!(Five of Clubs, Seven of Diamonds)", &[15,22], &cards!(Five of Clubs, Seven of Diamonds)),
    ("cards!(Five of Clubs, Seven of Clubs,)", &[15,23], &cards!(Five of Clubs, Seven of Clubs,)),
    ("cards!(Five of Clubs, Eight of Spades)", &[15,24], &cards!(Five of Clubs, Eight of Spades)),
    ("cards!(Five of Clubs, Eight of Hearts,)", &[15,25], &cards!(Five of Clubs, Eight of Hearts,)),
    ("cards!(Five of Clubs, Eight of Diamonds)", &[15,26], &cards!(Five of Clubs, Eight of Diamonds)),
    ("cards!(Five of Clubs, Eight of Clubs,)", &[15,27], &cards!(Five of Clubs, Eight of Clubs,)),
    ("cards!(Five of Clubs, Nine of Spades)", &[15,28], &cards!(Five of Clubs, Nine of Spades)),
    ("cards!(Five of Clubs, Nine of Hearts,)", &[15,29], &cards!(Five of Clubs, Nine of Hearts,)),
    ("cards!(Five of Clubs, Nine of Diamonds)", &[15,30], &cards!(Five of Clubs, Nine of Diamonds)),
    ("cards!(Five of Clubs, Nine of Clubs,)", &[15,31], &cards!(Five of Clubs, Nine of Clubs,)),
    ("cards!(Five of Clubs, Ten of Spades)", &[15,32], &cards!(Five of Clubs, Ten of Spades)),
    ("cards!(Five of Clubs, Ten of Hearts,)", &[15,33], &cards!(Five of Clubs, Ten of Hearts,)),
    ("cards!(Five of Clubs, Ten of Diamonds)", &[15,34], &cards!(Five of Clubs, Ten of Diamonds)),
    ("cards!(Five of Clubs, Ten of Clubs,)", &[15,35], &cards!(Five of Clubs, Ten of Clubs,)),
    ("cards!(Five of Clubs, Jack of Spades)", &[15,36], &cards!(Five of Clubs, Jack of Spades)),
    ("cards!(Five of Clubs, Jack of Hearts,)", &[15,37], &cards!(Five of Clubs, Jack of Hearts,)),
    ("cards!(Five of Clubs, Jack of Diamonds)", &[15,38], &cards!(Five of Clubs, Jack of Diamonds)),
    ("cards!(Five of Clubs, Jack of Clubs,)", &[15,39], &cards!(Five of Clubs, Jack of Clubs,)),
    ("cards!(Five of Clubs, Queen of Spades)", &[15,40], &cards!(Five of Clubs, Queen of Spades)),
    ("cards!(Five of Clubs, Queen of Hearts,)", &[15,41], &cards!(Five of Clubs, Queen of Hearts,)),
    ("cards!(Five of Clubs, Queen of Diamonds)", &[15,42], &cards!(Five of Clubs, Queen of Diamonds)),
    ("cards!(Five of Clubs, Queen of Clubs,)", &[15,43], &cards!(Five of Clubs, Queen of Clubs,)),
    ("cards!(Five of Clubs, King of Spades)", &[15,44], &cards!(Five of Clubs, King of Spades)),
    ("cards!(Five of Clubs, King of Hearts,)", &[15,45], &cards!(Five of Clubs, King of Hearts,)),
    ("cards!(Five of Clubs, King of Diamonds)", &[15,46], &cards!(Five of Clubs, King of Diamonds)),
    ("cards!(Five of Clubs, King of Clubs,)", &[15,47], &cards!(Five of Clubs, King of Clubs,)),
    ("cards!(Five of Clubs, Ace of Spades)", &[15,48], &cards!(Five of Clubs, Ace of Spades)),
    ("cards!(Five of Clubs, Ace of Hearts,)", &[15,49], &cards!(Five of Clubs, Ace of Hearts,)),
    ("cards!(Five of Clubs, Ace of Diamonds)", &[15,50], &cards!(Five of Clubs, Ace of Diamonds)),
    ("cards!(Five of Clubs, Ace of Clubs,)", &[15,51], &cards!(Five of Clubs, Ace of Clubs,)),
    ("cards!(Six of Spades, Two of Spades,)", &[16,0], &cards!(Six of Spades, Two of Spades,)),
    ("cards!(Six of Spades, Two of Hearts)", &[16,1], &cards!(Six of Spades, Two of Hearts)),
    ("cards!(Six of Spades, Two of Diamonds,)", &[16,2], &cards!(Six of Spades, Two of Diamonds,)),
    ("cards!(Six of Spades, Two of Clubs)", &[16,3], &cards!(Six of Spades, Two of Clubs)),
    ("cards!(Six of Spades, Three of Spades,)", &[16,4], &cards!(Six of Spades, Three of Spades,)),
    ("cards!(Six of Spades, Three of Hearts)", &[16,5], &cards!(Six of Spades, Three of Hearts)),
    ("cards!(Six of Spades, Three of Diamonds,)", &[16,6], &cards!(Six of Spades, Three of Diamonds,)),
    ("cards!(Six of Spades, Three of Clubs)", &[16,7], &cards!(Six of Spades, Three of Clubs)),
    ("cards!(Six of Spades, Four of Spades,)", &[16,8], &cards!(Six of Spades, Four of Spades,)),
    ("cards!(Six of Spades, Four of Hearts)", &[16,9], &cards!(Six of Spades, Four of Hearts)),
    ("cards!(Six of Spades, Four of Diamonds,)", &[16,10], &cards!(Six of Spades, Four of Diamonds,)),
    ("cards!(Six of Spades, Four of Clubs)", &[16,11], &cards!(Six of Spades, Four of Clubs)),
    ("cards!(Six of Spades, Five of Spades,)", &[16,12], &cards!(Six of Spades, Five of Spades,)),
    ("cards!(Six of Spades, Five of Hearts)", &[16,13], &cards!(Six of Spades, Five of Hearts)),
    ("cards!(Six of Spades, Five of Diamonds,)", &[16,14], &cards!(Six of Spades, Five of Diamonds,)),
    ("cards!(Six of Spades, Five of Clubs)", &[16,15], &cards!(Six of Spades, Five of Clubs)),
    ("cards!(Six of Spades, Six of Spades,)", &[16,16], &cards!(Six of Spades, Six of Spades,)),
    ("cards!(Six of Spades, Six of Hearts)", &[16,17], &cards!(Six of Spades, Six of Hearts)),
    ("cards!(Six of Spades, Six of Diamonds,)", &[16,18], &cards!(Six of Spades, Six of Diamonds,)),
    ("cards!(Six of Spades, Six of Clubs)", &[16,19], &cards!(Six of Spades, Six of Clubs)),
    ("cards!(Six of Spades, Seven of Spades,)", &[16,20], &cards!(Six of Spades, Seven of Spades,)),
    ("cards!(Six of Spades, Seven of Hearts)", &[16,21], &cards!(Six of Spades, Seven of Hearts)),
    ("cards!(Six of Spades, Seven of Diamonds,)", &[16,22], &cards!(Six of Spades, Seven of Diamonds,)),
    ("cards!(Six of Spades, Seven of Clubs)", &[16,23], &cards!(Six of Spades, Seven of Clubs)),
    ("cards!(Six of Spades, Eight of Spades,)", &[16,24], &cards!(Six of Spades, Eight of Spades,)),
    ("cards!(Six of Spades, Eight of Hearts)", &[16,25], &cards!(Six of Spades, Eight of Hearts)),
    ("cards!(Six of Spades, Eight of Diamonds,)", &[16,26], &cards!(Six of Spades, Eight of Diamonds,)),
    ("cards!(Six of Spades, Eight of Clubs)", &[16,27], &cards!(Six of Spades, Eight of Clubs)),
    ("cards!(Six of Spades, Nine of Spades,)", &[16,28], &cards!(Six of Spades, Nine of Spades,)),
    ("cards!(Six of Spades, Nine of Hearts)", &[16,29], &cards!(Six of Spades, Nine of Hearts)),
    ("cards!(Six of Spades, Nine of Diamonds,)", &[16,30], &cards!(Six of Spades, Nine of Diamonds,)),
    ("cards!(Six of Spades, Nine of Clubs)", &[16,31], &cards!(Six of Spades, Nine of Clubs)),
    ("cards!(Six of Spades, Ten of Spades,)", &[16,32], &cards!(Six of Spades, Ten of Spades,)),
    ("cards!(Six of Spades, Ten of Hearts)", &[16,33], &cards!(Six of Spades, Ten of Hearts)),
    ("cards!(Six of Spades, Ten of Diamonds,)", &[16,34], &cards!(Six of Spades, Ten of Diamonds,)),
    ("cards!(Six of Spades, Ten of Clubs)", &[16,35], &cards!(Six of Spades, Ten of Clubs)),
    ("cards!(Six of Spades, Jack of Spades,)", &[16,36], &cards!(Six of Spades, Jack of Spades,)),
    ("cards!(Six of Spades, Jack of Hearts)", &[16,37], &cards!(Six of Spades, Jack of Hearts)),
    ("cards!(Six of Spades, Jack of Diamonds,)", &[16,38], &cards!(Six of Spades, Jack of Diamonds,)),
    ("cards!(Six of Spades, Jack of Clubs)", &[16,39], &cards!(Six of Spades, Jack of Clubs)),
    ("cards!(Six of Spades, Queen of Spades,)", &[16,40], &cards!(Six of Spades, Queen of Spades,)),
    ("cards!(Six of Spades, Queen of Hearts)", &[16,41], &cards!(Six of Spades, Queen of Hearts)),
    ("cards!(Six of Spades, Queen of Diamonds,)", &[16,42], &cards!(Six of Spades, Queen of Diamonds,)),
    ("cards!(Six of Spades, Queen of Clubs)", &[16,43], &cards!(Six of Spades, Queen of Clubs)),
    ("cards!(Six of Spades, King of Spades,)", &[16,44], &cards!(Six of Spades, King of Spades,)),
    ("cards!(Six of Spades, King of Hearts)", &[16,45], &cards!(Six of Spades, King of Hearts)),
    ("cards!(Six of Spades, King of Diamonds,)", &[16,46], &cards!(Six of Spades, King of Diamonds,)),
    ("cards!(Six of Spades, King of Clubs)", &[16,47], &cards!(Six of Spades, King of Clubs)),
    ("cards!(Six of Spades, Ace of Spades,)", &[16,48], &cards!(Six of Spades, Ace of Spades,)),
    ("cards!(Six of Spades, Ace of Hearts)", &[16,49], &cards!(Six of Spades, Ace of Hearts)),
    ("cards!(Six of Spades, Ace of Diamonds,)", &[16,50], &cards!(Six of Spades, Ace of Diamonds,)),
    ("cards!(Six of Spades, Ace of Clubs)", &[16,51], &cards!(Six of Spades, Ace of Clubs)),
    ("cards!(Six of Hearts, Two of Spades)", &[17,0], &cards!(Six of Hearts, Two of Spades)),
    ("cards!(Six of Hearts, Two of Hearts,)", &[17,1], &cards!(Six of Hearts, Two of Hearts,)),
    ("cards!(Six of Hearts, Two of Diamonds)", &[17,2], &cards!(Six of Hearts, Two of Diamonds)),
    ("cards!(Six of Hearts, Two of Clubs,)", &[17,3], &cards!(Six of Hearts, Two of Clubs,)),
    ("cards!(Six of Hearts, Three of Spades)", &[17,4], &cards!(Six of Hearts, Three of Spades)),
    ("cards!(Six of Hearts, Three of Hearts,)", &[17,5], &cards!(Six of Hearts, Three of Hearts,)),
    ("cards!(Six of Hearts, Three of Diamonds)", &[17,6], &cards!(Six of Hearts, Three of Diamonds)),
    ("cards!(Six of Hearts, Three of Clubs,)", &[17,7], &cards!(Six of Hearts, Three of Clubs,)),
    ("cards!(Six of Hearts, Four of Spades)", &[17,8], &cards!(Six of Hearts, Four of Spades)),
    ("cards!(Six of Hearts, Four of Hearts,)", &[17,9], &cards!(Six of Hearts, Four of Hearts,)),
    ("cards!(Six of Hearts, Four of Diamonds)", &[17,10], &cards!(Six of Hearts, Four of Diamonds)),
    ("cards!(Six of Hearts, Four of Clubs,)", &[17,11], &cards!(Six of Hearts, Four of Clubs,)),
    ("cards!(Six of Hearts, Five of Spades)", &[17,12], &cards!(Six of Hearts, Five of Spades)),
    ("cards!(Six of Hearts, Five of Hearts,)", &[17,13], &cards!(Six of Hearts, Five of Hearts,)),
    ("cards!(Six of Hearts, Five of Diamonds)", &[17,14], &cards!(Six of Hearts, Five of Diamonds)),
    ("cards!(Six of Hearts, Five of Clubs,)", &[17,15], &cards!(Six of Hearts, Five of Clubs,)),
    ("cards!(Six of Hearts, Six of Spades)", &[17,16], &cards!(Six of Hearts, Six of Spades)),
    ("cards!(Six of Hearts, Six of Hearts,)", &[17,17], &cards!(Six of Hearts, Six of Hearts,)),
    ("cards!(Six of Hearts, Six of Diamonds)", &[17,18], &cards!(Six of Hearts, Six of Diamonds)),
    ("cards!(Six of Hearts, Six of Clubs,)", &[17,19], &cards!(Six of Hearts, Six of Clubs,)),
    ("cards!(Six of Hearts, Seven of Spades)", &[17,20], &cards!(Six of Hearts, Seven of Spades)),
    ("cards!(Six of Hearts, Seven of Hearts,)", &[17,21], &cards!(Six of Hearts, Seven of Hearts,)),
    ("cards!(Six of Hearts, Seven of Diamonds)", &[17,22], &cards!(Six of Hearts, Seven of Diamonds)),
    ("cards!(Six of Hearts, Seven of Clubs,)", &[17,23], &cards!(Six of Hearts, Seven of Clubs,)),
    ("cards!(Six of Hearts, Eight of Spades)", &[17,24], &cards!(Six of Hearts, Eight of Spades)),
    ("cards!(Six of Hearts, Eight of Hearts,)", &[17,25], &cards!(Six of Hearts, Eight of Hearts,)),
    ("cards!(Six of Hearts, Eight of Diamonds)", &[17,26], &cards!(Six of Hearts, Eight of Diamonds)),
    ("cards!(Six of Hearts, Eight of Clubs,)", &[17,27], &cards!(Six of Hearts, Eight of Clubs,)),
    ("cards!(Six of Hearts, Nine of Spades)", &[17,28], &cards!(Six of Hearts, Nine of Spades)),
    ("cards!(Six of Hearts, Nine of Hearts,)", &[17,29], &cards!(Six of Hearts, Nine of Hearts,)),
    ("cards!(Six of Hearts, Nine of Diamonds)", &[17,30], &cards!(Six of Hearts, Nine of Diamonds)),
    ("cards!(Six of Hearts, Nine of Clubs,)", &[17,31], &cards!(Six of Hearts, Nine of Clubs,)),
    ("cards!(Six of Hearts, Ten of Spades)", &[17,32], &cards!(Six of Hearts, Ten of Spades)),
    ("cards!(Six of Hearts, Ten of Hearts,)", &[17,33], &cards!(Six of Hearts, Ten of Hearts,)),
    ("cards!(Six of Hearts, Ten of Diamonds)", &[17,34], &cards!(Six of Hearts, Ten of Diamonds)),
    ("cards!(Six of Hearts, Ten of Clubs,)", &[17,35], &cards!(Six of Hearts, Ten of Clubs,)),
    ("cards!(Six of Hearts, Jack of Spades)", &[17,36], &cards!(Six of Hearts, Jack of Spades)),
    ("cards!(Six of Hearts, Jack of Hearts,)", &[17,37], &cards!(Six of Hearts, Jack of Hearts,)),
    ("cards!(Six of Hearts, Jack of Diamonds)", &[17,38], &cards!(Six of Hearts, Jack of Diamonds)),
    ("cards!(Six of Hearts, Jack of Clubs,)", &[17,39], &cards!(Six of Hearts, Jack of Clubs,)),
    ("cards!(Six of Hearts, Queen of Spades)", &[17,40], &cards!(Six of Hearts, Queen of Spades)),
    ("cards!(Six of Hearts, Queen of Hearts,)", &[17,41], &cards!(Six of Hearts, Queen of Hearts,)),
    ("cards!(Six of Hearts, Queen of Diamonds)", &[17,42], &cards!(Six of Hearts, Queen of Diamonds)),
    ("cards!(Six of Hearts, Queen of Clubs,)", &[17,43], &cards!(Six of Hearts, Queen of Clubs,)),
    ("cards!(Six of Hearts, King of Spades)", &[17,44], &cards!(Six of Hearts, King of Spades)),
    ("cards!(Six of Hearts, King of Hearts,)", &[17,45], &cards!(Six of Hearts, King of Hearts,)),
    ("cards!(Six of Hearts, King of Diamonds)", &[17,46], &cards!(Six of Hearts, King of Diamonds)),
    ("cards!(Six of Hearts, King of Clubs,)", &[17,47], &cards!(Six of Hearts, King of Clubs,)),
    ("cards!(Six of Hearts, Ace of Spades)", &[17,48], &cards!(Six of Hearts, Ace of Spades)),
    ("cards!(Six of Hearts, Ace of Hearts,)", &[17,49], &cards!(Six of Hearts, Ace of Hearts,)),
    ("cards!(Six of Hearts, Ace of Diamonds)", &[17,50], &cards!(Six of Hearts, Ace of Diamonds)),
    ("cards!(Six of Hearts, Ace of Clubs,)", &[17,51], &cards!(Six of Hearts, Ace of Clubs,)),
    ("cards!(Six of Diamonds, Two of Spades,)", &[18,0], &cards!(Six of Diamonds, Two of Spades,)),
    ("cards!(Six of Diamonds, Two of Hearts)", &[18,1], &cards!(Six of Diamonds, Two of Hearts)),
    ("cards!(Six of Diamonds, Two of Diamonds,)", &[18,2], &cards!(Six of Diamonds, Two of Diamonds,)),
    ("cards!(Six of Diamonds, Two of Clubs)", &[18,3], &cards!(Six of Diamonds, Two of Clubs)),
    ("cards!(Six of Diamonds, Three of Spades,)", &[18,4], &cards!(Six of Diamonds, Three of Spades,)),
    ("cards!(Six of Diamonds, Three of Hearts)", &[18,5], &cards!(Six of Diamonds, Three of Hearts)),
    ("cards!(Six of Diamonds, Three of Diamonds,)", &[18,6], &cards!(Six of Diamonds, Three of Diamonds,)),
    ("cards!(Six of Diamonds, Three of Clubs)", &[18,7], &cards!(Six of Diamonds, Three of Clubs)),
    ("cards!(Six of Diamonds, Four of Spades,)", &[18,8], &cards!(Six of Diamonds, Four of Spades,)),
    ("cards!(Six of Diamonds, Four of Hearts)", &[18,9], &cards!(Six of Diamonds, Four of Hearts)),
    ("cards!(Six of Diamonds, Four of Diamonds,)", &[18,10], &cards!(Six of Diamonds, Four of Diamonds,)),
    ("cards!(Six of Diamonds, Four of Clubs)", &[18,11], &cards!(Six of Diamonds, Four of Clubs)),
    ("cards!(Six of Diamonds, Five of Spades,)", &[18,12], &cards!(Six of Diamonds, Five of Spades,)),
    ("cards!(Six of Diamonds, Five of Hearts)", &[18,13], &cards!(Six of Diamonds, Five of Hearts)),
    ("cards!(Six of Diamonds, Five of Diamonds,)", &[18,14], &cards!(Six of Diamonds, Five of Diamonds,)),
    ("cards!(Six of Diamonds, Five of Clubs)", &[18,15], &cards!(Six of Diamonds, Five of Clubs)),
    ("cards!(Six of Diamonds, Six of Spades,)", &[18,16], &cards!(Six of Diamonds, Six of Spades,)),
    ("cards!(Six of Diamonds, Six of Hearts)", &[18,17], &cards!(Six of Diamonds, Six of Hearts)),
    ("cards!(Six of Diamonds, Six of Diamonds,)", &[18,18], &cards!(Six of Diamonds, Six of Diamonds,)),
    ("cards!(Six of Diamonds, Six of Clubs)", &[18,19], &cards!(Six of Diamonds, Six of Clubs)),
    ("cards!(Six of Diamonds, Seven of Spades,)", &[18,20], &cards!(Six of Diamonds, Seven of Spades,)),
    ("cards!(Six of Diamonds, Seven of Hearts)", &[18,21], &cards!(Six of Diamonds, Seven of Hearts)),
    ("cards!(Six of Diamonds, Seven of Diamonds,)", &[18,22], &cards!(Six of Diamonds, Seven of Diamonds,)),
    ("cards!(Six of Diamonds, Seven of Clubs)", &[18,23], &cards!(Six of Diamonds, Seven of Clubs)),
    ("cards!(Six of Diamonds, Eight of Spades,)", &[18,24], &cards!(Six of Diamonds, Eight of Spades,)),
    ("cards!(Six of Diamonds, Eight of Hearts)", &[18,25], &cards!(Six of Diamonds, Eight of Hearts)),
    ("cards!(Six of Diamonds, Eight of Diamonds,)", &[18,26], &cards!(Six of Diamonds, Eight of Diamonds,)),
    ("cards!(Six of Diamonds, Eight of Clubs)", &[18,27], &cards!(Six of Diamonds, Eight of Clubs)),
    ("cards!(Six of Diamonds, Nine of Spades,)", &[18,28], &cards!(Six of Diamonds, Nine of Spades,)),
    ("cards!(Six of Diamonds, Nine of Hearts)", &[18,29], &cards!(Six of Diamonds, Nine of Hearts)),
    ("cards!(Six of Diamonds, Nine of Diamonds,)", &[18,30], &cards!(Six of Diamonds, Nine of Diamonds,)),
    ("cards!(Six of Diamonds, Nine of Clubs)", &[18,31], &cards!(Six of Diamonds, Nine of Clubs)),
    ("cards!(Six of Diamonds, Ten of Spades,)", &[18,32], &cards!(Six of Diamonds, Ten of Spades,)),
    ("cards!(Six of Diamonds, Ten of Hearts)", &[18,33], &cards!(Six of Diamonds, Ten of Hearts)),
    ("cards!(Six of Diamonds, Ten of Diamonds,)", &[18,34], &cards!(Six of Diamonds, Ten of Diamonds,)),
    ("cards!(Six of Diamonds, Ten of Clubs)", &[18,35], &cards!(Six of Diamonds, Ten of Clubs)),
    ("cards!(Six of Diamonds, Jack of Spades,)", &[18,36], &cards!(Six of Diamonds, Jack of Spades,)),
    ("cards!(Six of Diamonds, Jack of Hearts)", &[18,37], &cards!(Six of Diamonds, Jack of Hearts)),
    ("cards!(Six of Diamonds, Jack of Diamonds,)", &[18,38], &cards!(Six of Diamonds, Jack of Diamonds,)),
    ("cards!(Six of Diamonds, Jack of Clubs)", &[18,39], &cards!(Six of Diamonds, Jack of Clubs)),
    ("cards!(Six of Diamonds, Queen of Spades,)", &[18,40], &cards!(Six of Diamonds, Queen of Spades,)),
    ("cards!(Six of Diamonds, Queen of Hearts)", &[18,41], &cards!(Six of Diamonds, Queen of Hearts)),
    ("cards!(Six of Diamonds, Queen of Diamonds,)", &[18,42], &cards!(Six of Diamonds, Queen of Diamonds,)),
    ("cards!(Six of Diamonds, Queen of Clubs)", &[18,43], &cards!(Six of Diamonds, Queen of Clubs)),
    ("cards!(Six of Diamonds, King of Spades,)", &[18,44], &cards!(Six of Diamonds, King of Spades,)),
    ("cards!(Six of Diamonds, King of Hearts)", &[18,45], &cards!(Six of Diamonds, King of Hearts)),
    ("cards!(Six of Diamonds, King of Diamonds,)", &[18,46], &cards!(Six of Diamonds, King of Diamonds,)),
    ("cards!(Six of Diamonds, King of Clubs)", &[18,47], &cards!(Six of Diamonds, King of Clubs)),
    ("cards!(Six of Diamonds, Ace of Spades,)", &[18,48], &cards!(Six of Diamonds, Ace of Spades,)),
    ("cards!(Six of Diamonds, Ace of Hearts)", &[18,49], &cards!(Six of Diamonds, Ace of Hearts)),
    ("cards!(Six of Diamonds, Ace of Diamonds,)", &[18,50], &cards!(Six of Diamonds, Ace of Diamonds,)),
    ("cards!(Six of Diamonds, Ace of Clubs)", &[18,51], &cards!(Six of Diamonds, Ace of Clubs)),
    ("cards!(Six of Clubs, Two of Spades)", &[19,0], &cards!(Six of Clubs, Two of Spades)),
    ("cards!(Six of Clubs, Two of Hearts,)", &[19,1], &cards!(Six of Clubs, Two of Hearts,)),
    ("cards!(Six of Clubs, Two of Diamonds)", &[19,2], &cards!(Six of Clubs, Two of Diamonds)),
    ("cards!(Six of Clubs, Two of Clubs,)", &[19,3], &cards!(Six of Clubs, Two of Clubs,)),
    ("cards!(Six of Clubs, Three of Spades)", &[19,4], &cards!(Six of Clubs, Three of Spades)),
    ("cards!(Six of Clubs, Three of Hearts,)", &[19,5], &cards!(Six of Clubs, Three of Hearts,)),
    ("cards!(Six of Clubs, Three of Diamonds)", &[19,6], &cards!(Six of Clubs, Three of Diamonds)),
    ("cards!(Six of Clubs, Three of Clubs,)", &[19,7], &cards!(Six of Clubs, Three of Clubs,)),
    ("cards!(Six of Clubs, Four of Spades)", &[19,8], &cards!(Six of Clubs, Four of Spades)),
    ("cards!(Six of Clubs, Four of Hearts,)", &[19,9], &cards!(Six of Clubs, Four of Hearts,)),
    ("cards!(Six of Clubs, Four of Diamonds)", &[19,10], &cards!(Six of Clubs, Four of Diamonds)),
    ("cards!(Six of Clubs, Four of Clubs,)", &[19,11], &cards!(Six of Clubs, Four of Clubs,)),
    ("cards!(Six of Clubs, Five of Spades)", &[19,12], &cards!(Six of Clubs, Five of Spades)),
    ("cards!(Six of Clubs, Five of Hearts,)", &[19,13], &cards!(Six of Clubs, Five of Hearts,)),
    ("cards!(Six of Clubs, Five of Diamonds)", &[19,14], &cards!(Six of Clubs, Five of Diamonds)),
    ("cards!(Six of Clubs, Five of Clubs,)", &[19,15], &cards!(Six of Clubs, Five of Clubs,)),
    ("cards!(Six of Clubs, Six of Spades)", &[19,16], &cards!(Six of Clubs, Six of Spades)),
    ("cards!(Six of Clubs, Six of Hearts,)", &[19,17], &cards!(Six of Clubs, Six of Hearts,)),
    ("cards!(Six of Clubs, Six of Diamonds)", &[19,18], &cards!(Six of Clubs, Six of Diamonds)),
    ("cards!(Six of Clubs, Six of Clubs,)", &[19,19], &cards!(Six of Clubs, Six of Clubs,)),
    ("cards!(Six of Clubs, Seven of Spades)", &[19,20], &cards!(Six of Clubs, Seven of Spades)),
    ("cards!(Six of Clubs, Seven of Hearts,)", &[19,21], &cards!(Six of Clubs, Seven of Hearts,)),
    ("cards!(Six of Clubs, Seven of Diamonds)", &[19,22], &cards!(Six of Clubs, Seven of Diamonds)),
    ("cards!(Six of Clubs, Seven of Clubs,)", &[19,23], &cards!(Six of Clubs, Seven of Clubs,)),
    ("cards!(Six of Clubs, Eight of Spades)", &[19,24], &cards!(Six of Clubs, Eight of Spades)),
    ("cards!(Six of Clubs, Eight of Hearts,)", &[19,25], &cards!(Six of Clubs, Eight of Hearts,)),
    ("cards!(Six of Clubs, Eight of Diamonds)", &[19,26], &cards!(Six of Clubs, Eight of Diamonds)),
    ("cards!(Six of Clubs, Eight of Clubs,)", &[19,27], &cards!(Six of Clubs, Eight of Clubs,)),
    ("cards!(Six of Clubs, Nine of Spades)", &[19,28], &cards!(Six of Clubs, Nine of Spades)),
    ("cards!(Six of Clubs, Nine of Hearts,)", &[19,29], &cards!(Six of Clubs, Nine of Hearts,)),
    ("cards!(Six of Clubs, Nine of Diamonds)", &[19,30], &cards!(Six of Clubs, Nine of Diamonds)),
    ("cards!(Six of Clubs, Nine of Clubs,)", &[19,31], &cards!(Six of Clubs, Nine of Clubs,)),
    ("cards!(Six of Clubs, Ten of Spades)", &[19,32], &cards!(Six of Clubs, Ten of Spades)),
    ("cards!(Six of Clubs, Ten of Hearts,)", &[19,33], &cards!(Six of Clubs, Ten of Hearts,)),
    ("cards!(Six of Clubs, Ten of Diamonds)", &[19,34], &cards!(Six of Clubs, Ten of Diamonds)),
    ("cards!(Six of Clubs, Ten of Clubs,)", &[19,35], &cards!(Six of Clubs, Ten of Clubs,)),
    ("cards!(Six of Clubs, Jack of Spades)", &[19,36], &cards!(Six of Clubs, Jack of Spades)),
    ("cards!(Six of Clubs, Jack of Hearts,)", &[19,37], &cards!(Six of Clubs, Jack of Hearts,)),
    ("cards!(Six of Clubs, Jack of Diamonds)", &[19,38], &cards!(Six of Clubs, Jack of Diamonds)),
    ("cards!(Six of Clubs, Jack of Clubs,)", &[19,39], &cards!(Six of Clubs, Jack of Clubs,)),
    ("cards!(Six of Clubs, Queen of Spades)", &[19,40], &cards!(Six of Clubs, Queen of Spades)),
    ("cards!(Six of Clubs, Queen of Hearts,)", &[19,41], &cards!(Six of Clubs, Queen of Hearts,)),
    ("cards!(Six of Clubs, Queen of Diamonds)", &[19,42], &cards!(Six of Clubs, Queen of Diamonds)),
    ("cards!(Six of Clubs, Queen of Clubs,)", &[19,43], &cards!(Six of Clubs, Queen of Clubs,)),
    ("cards!(Six of Clubs, King of Spades)", &[19,44], &cards!(Six of Clubs, King of Spades)),
    ("cards!(Six of Clubs, King of Hearts,)", &[19,45], &cards!(Six of Clubs, King of Hearts,)),
    ("cards!(Six of Clubs, King of Diamonds)", &[19,46], &cards!(Six of Clubs, King of Diamonds)),
    ("cards!(Six of Clubs, King of Clubs,)", &[19,47], &cards!(Six of Clubs, King of Clubs,)),
    ("cards!(Six of Clubs, Ace of Spades)", &[19,48], &cards!(Six of Clubs, Ace of Spades)),
    ("cards!(Six of Clubs, Ace of Hearts,)", &[19,49], &cards!(Six of Clubs, Ace of Hearts,)),
    ("cards!(Six of Clubs, Ace of Diamonds)", &[19,50], &cards!(Six of Clubs, Ace of Diamonds)),
    ("cards!(Six of Clubs, Ace of Clubs,)", &[19,51], &cards!(Six of Clubs, Ace of Clubs,)),
    ("cards!(Seven of Spades, Two of Spades,)", &[20,0], &cards!(Seven of Spades, Two of Spades,)),
    ("cards!(Seven of Spades, Two of Hearts)", &[20,1], &cards!(Seven of Spades, Two of Hearts)),
    ("cards!(Seven of Spades, Two of Diamonds,)", &[20,2], &cards!(Seven of Spades, Two of Diamonds,)),
    ("cards!(Seven of Spades, Two of Clubs)", &[20,3], &cards!(Seven of Spades, Two of Clubs)),
    ("cards!(Seven of Spades, Three of Spades,)", &[20,4], &cards!(Seven of Spades, Three of Spades,)),
    ("cards!(Seven of Spades, Three of Hearts)", &[20,5], &cards!(Seven of Spades, Three of Hearts)),
    ("cards!(Seven of Spades, Three of Diamonds,)", &[20,6], &cards!(Seven of Spades, Three of Diamonds,)),
    ("cards!(Seven of Spades, Three of Clubs)", &[20,7], &cards!(Seven of Spades, Three of Clubs)),
    ("cards!(Seven of Spades, Four of Spades,)", &[20,8], &cards!(Seven of Spades, Four of Spades,)),
    ("cards!(Seven of Spades, Four of Hearts)", &[20,9], &cards!(Seven of Spades, Four of Hearts)),
    ("cards!(Seven of Spades, Four of Diamonds,)", &[20,10], &cards!(Seven of Spades, Four of Diamonds,)),
    ("cards!(Seven of Spades, Four of Clubs)", &[20,11], &cards!(Seven of Spades, Four of Clubs)),
    ("cards!(Seven of Spades, Five of Spades,)", &[20,12], &cards!(Seven of Spades, Five of Spades,)),
    ("cards!(Seven of Spades, Five of Hearts)", &[20,13], &cards!(Seven of Spades, Five of Hearts)),
    ("cards!(Seven of Spades, Five of Diamonds,)", &[20,14], &cards!(Seven of Spades, Five of Diamonds,)),
    ("cards!(Seven of Spades, Five of Clubs)", &[20,15], &cards!(Seven of Spades, Five of Clubs)),
    ("cards!(Seven of Spades, Six of Spades,)", &[20,16], &cards!(Seven of Spades, Six of Spades,)),
    ("cards!(Seven of Spades, Six of Hearts)", &[20,17], &cards!(Seven of Spades, Six of Hearts)),
    ("cards!(Seven of Spades, Six of Diamonds,)", &[20,18], &cards!(Seven of Spades, Six of Diamonds,)),
    ("cards!(Seven of Spades, Six of Clubs)", &[20,19], &cards!(Seven of Spades, Six of Clubs)),
    ("cards!(Seven of Spades, Seven of Spades,)", &[20,20], &cards!(Seven of Spades, Seven of Spades,)),
    ("cards!(Seven of Spades, Seven of Hearts)", &[20,21], &cards!(Seven of Spades, Seven of Hearts)),
    ("cards!(Seven of Spades, Seven of Diamonds,)", &[20,22], &cards!(Seven of Spades, Seven of Diamonds,)),
    ("cards!(Seven of Spades, Seven of Clubs)", &[20,23], &cards!(Seven of Spades, Seven of Clubs)),
    ("cards!(Seven of Spades, Eight of Spades,)", &[20,24], &cards!(Seven of Spades, Eight of Spades,)),
    ("cards!(Seven of Spades, Eight of Hearts)", &[20,25], &cards!(Seven of Spades, Eight of Hearts)),
    ("cards!(Seven of Spades, Eight of Diamonds,)", &[20,26], &cards!(Seven of Spades, Eight of Diamonds,)),
    ("cards!(Seven of Spades, Eight of Clubs)", &[20,27], &cards!(Seven of Spades, Eight of Clubs)),
    ("cards!(Seven of Spades, Nine of Spades,)", &[20,28], &cards!(Seven of Spades, Nine of Spades,)),
    ("cards!(Seven of Spades, Nine of Hearts)", &[20,29], &cards!(Seven of Spades, Nine of Hearts)),
    ("cards!(Seven of Spades, Nine of Diamonds,)", &[20,30], &cards!(Seven of Spades, Nine of Diamonds,)),
    ("cards!(Seven of Spades, Nine of Clubs)", &[20,31], &cards!(Seven of Spades, Nine of Clubs)),
    ("cards!(Seven of Spades, Ten of Spades,)", &[20,32], &cards!(Seven of Spades, Ten of Spades,)),
    ("cards!(Seven of Spades, Ten of Hearts)", &[20,33], &cards!(Seven of Spades, Ten of Hearts)),
    ("cards!(Seven of Spades, Ten of Diamonds,)", &[20,34], &cards!(Seven of Spades, Ten of Diamonds,)),
    ("cards!(Seven of Spades, Ten of Clubs)", &[20,35], &cards!(Seven of Spades, Ten of Clubs)),
    ("cards!(Seven of Spades, Jack of Spades,)", &[20,36], &cards!(Seven of Spades, Jack of Spades,)),
    ("cards!(Seven of Spades, Jack of Hearts)", &[20,37], &cards!(Seven of Spades, Jack of Hearts)),
    ("cards!(Seven of Spades, Jack of Diamonds,)", &[20,38], &cards!(Seven of Spades, Jack of Diamonds,)),
    ("cards!(Seven of Spades, Jack of Clubs)", &[20,39], &cards!(Seven of Spades, Jack of Clubs)),
    ("cards!(Seven of Spades, Queen of Spades,)", &[20,40], &cards!(Seven of Spades, Queen of Spades,)),
    ("cards!(Seven of Spades, Queen of Hearts)", &[20,41], &cards!(Seven of Spades, Queen of Hearts)),
    ("cards!(Seven of Spades, Queen of Diamonds,)", &[20,42], &cards!(Seven of Spades, Queen of Diamonds,)),
    ("cards!(Seven of Spades, Queen of Clubs)", &[20,43], &cards!(Seven of Spades, Queen of Clubs)),
    ("cards!(Seven of Spades, King of Spades,)", &[20,44], &cards!(Seven of Spades, King of Spades,)),
    ("cards!(Seven of Spades, King of Hearts)", &[20,45], &cards!(Seven of Spades, King of Hearts)),
    ("cards!(Seven of Spades, King of Diamonds,)", &[20,46], &cards!(Seven of Spades, King of Diamonds,)),
    ("cards!(Seven of Spades, King of Clubs)", &[20,47], &cards!(Seven of Spades, King of Clubs)),
    ("cards!(Seven of Spades, Ace of Spades,)", &[20,48], &cards!(Seven of Spades, Ace of Spades,)),
    ("cards!(Seven of Spades, Ace of Hearts)", &[20,49], &cards!(Seven of Spades, Ace of Hearts)),
    ("cards!(Seven of Spades, Ace of Diamonds,)", &[20,50], &cards!(Seven of Spades, Ace of Diamonds,)),
    ("cards!(Seven of Spades, Ace of Clubs)", &[20,51], &cards!(Seven of Spades, Ace of Clubs)),
    ("cards!(Seven of Hearts, Two of Spades)", &[21,0], &cards!(Seven of Hearts, Two of Spades)),
    ("cards!(Seven of Hearts, Two of Hearts,)", &[21,1], &cards!(Seven of Hearts, Two of Hearts,)),
    ("cards!(Seven of Hearts, Two of Diamonds)", &[21,2], &cards!(Seven of Hearts, Two of Diamonds)),
    ("cards!(Seven of Hearts, Two of Clubs,)", &[21,3], &cards!(Seven of Hearts, Two of Clubs,)),
    ("cards!(Seven of Hearts, Three of Spades)", &[21,4], &cards!(Seven of Hearts, Three of Spades)),
    ("cards!(Seven of Hearts, Three of Hearts,)", &[21,5], &cards!(Seven of Hearts, Three of Hearts,)),
    ("cards!(Seven of Hearts, Three of Diamonds)", &[21,6], &cards!(Seven of Hearts, Three of Diamonds)),
    ("cards!(Seven of Hearts, Three of Clubs,)", &[21,7], &cards!(Seven of Hearts, Three of Clubs,)),
    ("cards!(Seven of Hearts, Four of Spades)", &[21,8], &cards!(Seven of Hearts, Four of Spades)),
    ("cards!(Seven of Hearts, Four of Hearts,)", &[21,9], &cards!(Seven of Hearts, Four of Hearts,)),
    ("cards!(Seven of Hearts, Four of Diamonds)", &[21,10], &cards!(Seven of Hearts, Four of Diamonds)),
    ("cards!(Seven of Hearts, Four of Clubs,)", &[21,11], &cards!(Seven of Hearts, Four of Clubs,)),
    ("cards!(Seven of Hearts, Five of Spades)", &[21,12], &cards!(Seven of Hearts, Five of Spades)),
    ("cards!(Seven of Hearts, Five of Hearts,)", &[21,13], &cards!(Seven of Hearts, Five of Hearts,)),
    ("cards!(Seven of Hearts, Five of Diamonds)", &[21,14], &cards!(Seven of Hearts, Five of Diamonds)),
    ("cards!(Seven of Hearts, Five of Clubs,)", &[21,15], &cards!(Seven of Hearts, Five of Clubs,)),
    ("cards!(Seven of Hearts, Six of Spades)", &[21,16], &cards!(Seven of Hearts, Six of Spades)),
    ("cards!(Seven of Hearts, Six of Hearts,)", &[21,17], &cards!(Seven of Hearts, Six of Hearts,)),
    ("cards!(Seven of Hearts, Six of Diamonds)", &[21,18], &cards!(Seven of Hearts, Six of Diamonds)),
    ("cards!(Seven of Hearts, Six of Clubs,)", &[21,19], &cards!(Seven of Hearts, Six of Clubs,)),
    ("cards!(Seven of Hearts, Seven of Spades)", &[21,20], &cards!(Seven of Hearts, Seven of Spades)),
    ("cards!(Seven of Hearts, Seven of Hearts,)", &[21,21], &cards!(Seven of Hearts, Seven of Hearts,)),
    ("cards!(Seven of Hearts, Seven of Diamonds)", &[21,22], &cards!(Seven of Hearts, Seven of Diamonds)),
    ("cards!(Seven of Hearts, Seven of Clubs,)", &[21,23], &cards!(Seven of Hearts, Seven of Clubs,)),
    ("cards!(Seven of Hearts, Eight of Spades)", &[21,24], &cards!(Seven of Hearts, Eight of Spades)),
    ("cards!(Seven of Hearts, Eight of Hearts,)", &[21,25], &cards!(Seven of Hearts, Eight of Hearts,)),
    ("cards!(Seven of Hearts, Eight of Diamonds)", &[21,26], &cards!(Seven of Hearts, Eight of Diamonds)),
    ("cards!(Seven of Hearts, Eight of Clubs,)", &[21,27], &cards!(Seven of Hearts, Eight of Clubs,)),
    ("cards!(Seven of Hearts, Nine of Spades)", &[21,28], &cards!(Seven of Hearts, Nine of Spades)),
    ("cards!(Seven of Hearts, Nine of Hearts,)", &[21,29], &cards!(Seven of Hearts, Nine of Hearts,)),
    ("cards!(Seven of Hearts, Nine of Diamonds)", &[21,30], &cards!(Seven of Hearts, Nine of Diamonds)),
    ("cards!(Seven of Hearts, Nine of Clubs,)", &[21,31], &cards!(Seven of Hearts, Nine of Clubs,)),
    ("cards!(Seven of Hearts, Ten of Spades)", &[21,32], &cards!(Seven of Hearts, Ten of Spades)),
    ("cards!(Seven of Hearts, Ten of Hearts,)", &[21,33], &cards!(Seven of Hearts, Ten of Hearts,)),
    ("cards!(Seven of Hearts, Ten of Diamonds)", &[21,34], &cards!(Seven of Hearts, Ten of Diamonds)),
    ("cards!(Seven of Hearts, Ten of Clubs,)", &[21,35], &cards!(Seven of Hearts, Ten of Clubs,)),
    ("cards!(Seven of Hearts, Jack of Spades)", &[21,36], &cards!(Seven of Hearts, Jack of Spades)),
    ("cards!(Seven of Hearts, Jack of Hearts,)", &[21,37], &cards!(Seven of Hearts, Jack of Hearts,)),
    ("cards!(Seven of Hearts, Jack of Diamonds)", &[21,38], &cards!(Seven of Hearts, Jack of Diamonds)),
    ("cards!(Seven of Hearts, Jack of Clubs,)", &[21,39], &cards!(Seven of Hearts, Jack of Clubs,)),
    ("cards!(Seven of Hearts, Queen of Spades)", &[21,40], &cards!(Seven of Hearts, Queen of Spades)),
    ("cards!(Seven of Hearts, Queen of Hearts,)", &[21,41], &cards!(Seven of Hearts, Queen of Hearts,)),
    ("cards!(Seven of Hearts, Queen of Diamonds)", &[21,42], &cards!(Seven of Hearts, Queen of Diamonds)),
    ("cards!(Seven of Hearts, Queen of Clubs,)", &[21,43], &cards!(Seven of Hearts, Queen of Clubs,)),
    ("cards!(Seven of Hearts, King of Spades)", &[21,44], &cards!(Seven of Hearts, King of Spades)),
    ("cards!(Seven of Hearts, King of Hearts,)", &[21,45], &cards!(Seven of Hearts, King of Hearts,)),
    ("cards!(Seven of Hearts, King of Diamonds)", &[21,46], &cards!(Seven of Hearts, King of Diamonds)),
    ("cards!(Seven of Hearts, King of Clubs,)", &[21,47], &cards!(Seven of Hearts, King of Clubs,)),
    ("cards!(Seven of Hearts, Ace of Spades)", &[21,48], &cards!(Seven of Hearts, Ace of Spades)),
    ("cards!(Seven of Hearts, Ace of Hearts,)", &[21,49], &cards!(Seven of Hearts, Ace of Hearts,)),
    ("cards!(Seven of Hearts, Ace of Diamonds)", &[21,50], &cards!(Seven of Hearts, Ace of Diamonds)),
    ("cards!(Seven of Hearts, Ace of Clubs,)", &[21,51], &cards!(Seven of Hearts, Ace of Clubs,)),
    ("cards!(Seven of Diamonds, Two of Spades,)", &[22,0], &cards!(Seven of Diamonds, Two of Spades,)),
    ("cards!(Seven of Diamonds, Two of Hearts)", &[22,1], &cards!(Seven of Diamonds, Two of Hearts)),
    ("cards!(Seven of Diamonds, Two of Diamonds,)", &[22,2], &cards!(Seven of Diamonds, Two of Diamonds,)),
    ("cards!(Seven of Diamonds, Two of Clubs)", &[22,3], &cards!(Seven of Diamonds, Two of Clubs)),
    ("cards!(Seven of Diamonds, Three of Spades,)", &[22,4], &cards!(Seven of Diamonds, Three of Spades,)),
    ("cards!(Seven of Diamonds, Three of Hearts)", &[22,5], &cards!(Seven of Diamonds, Three of Hearts)),
    ("cards!(Seven of Diamonds, Three of Diamonds,)", &[22,6], &cards!(Seven of Diamonds, Three of Diamonds,)),
    ("cards!(Seven of Diamonds, Three of Clubs)", &[22,7], &cards!(Seven of Diamonds, Three of Clubs)),
    ("cards!(Seven of Diamonds, Four of Spades,)", &[22,8], &cards!(Seven of Diamonds, Four of Spades,)),
    ("cards!(Seven of Diamonds, Four of Hearts)", &[22,9], &cards!(Seven of Diamonds, Four of Hearts)),
    ("cards!(Seven of Diamonds, Four of Diamonds,)", &[22,10], &cards!(Seven of Diamonds, Four of Diamonds,)),
    ("cards!(Seven of Diamonds, Four of Clubs)", &[22,11], &cards!(Seven of Diamonds, Four of Clubs)),
    ("cards!(Seven of Diamonds, Five of Spades,)", &[22,12], &cards!(Seven of Diamonds, Five of Spades,)),
    ("cards!(Seven of Diamonds, Five of Hearts)", &[22,13], &cards!(Seven of Diamonds, Five of Hearts)),
    ("cards!(Seven of Diamonds, Five of Diamonds,)", &[22,14], &cards!(Seven of Diamonds, Five of Diamonds,)),
    ("cards!(Seven of Diamonds, Five of Clubs)", &[22,15], &cards!(Seven of Diamonds, Five of Clubs)),
    ("cards!(Seven of Diamonds, Six of Spades,)", &[22,16], &cards!(Seven of Diamonds, Six of Spades,)),
    ("cards!(Seven of Diamonds, Six of Hearts)", &[22,17], &cards!(Seven of Diamonds, Six of Hearts)),
    ("cards!(Seven of Diamonds, Six of Diamonds,)", &[22,18], &cards!(Seven of Diamonds, Six of Diamonds,)),
    ("cards!(Seven of Diamonds, Six of Clubs)", &[22,19], &cards!(Seven of Diamonds, Six of Clubs)),
    ("cards!(Seven of Diamonds, Seven of Spades,)", &[22,20], &cards!(Seven of Diamonds, Seven of Spades,)),
    ("cards!(Seven of Diamonds, Seven of Hearts)", &[22,21], &cards!(Seven of Diamonds, Seven of Hearts)),
    ("cards!(Seven of Diamonds, Seven of Diamonds,)", &[22,22], &cards!(Seven of Diamonds, Seven of Diamonds,)),
    ("cards!(Seven of Diamonds, Seven of Clubs)", &[22,23], &cards!(Seven of Diamonds, Seven of Clubs)),
    ("cards!(Seven of Diamonds, Eight of Spades,)", &[22,24], &cards!(Seven of Diamonds, Eight of Spades,)),
    ("cards!(Seven of Diamonds, Eight of Hearts)", &[22,25], &cards!(Seven of Diamonds, Eight of Hearts)),
    ("cards!(Seven of Diamonds, Eight of Diamonds,)", &[22,26], &cards!(Seven of Diamonds, Eight of Diamonds,)),
    ("cards!(Seven of Diamonds, Eight of Clubs)", &[22,27], &cards!(Seven of Diamonds, Eight of Clubs)),
    ("cards!(Seven of Diamonds, Nine of Spades,)", &[22,28], &cards!(Seven of Diamonds, Nine of Spades,)),
    ("cards!(Seven of Diamonds, Nine of Hearts)", &[22,29], &cards!(Seven of Diamonds, Nine of Hearts)),
    ("cards!(Seven of Diamonds, Nine of Diamonds,)", &[22,30], &cards!(Seven of Diamonds, Nine of Diamonds,)),
    ("cards!(Seven of Diamonds, Nine of Clubs)", &[22,31], &cards!(Seven of Diamonds, Nine of Clubs)),
    ("cards!(Seven of Diamonds, Ten of Spades,)", &[22,32], &cards!(Seven of Diamonds, Ten of Spades,)),
    ("cards!(Seven of Diamonds, Ten of Hearts)", &[22,33], &cards!(Seven of Diamonds, Ten of Hearts)),
    ("cards!(Seven of Diamonds, Ten of Diamonds,)", &[22,34], &cards!(Seven of Diamonds, Ten of Diamonds,)),
    ("cards!(Seven of Diamonds, Ten of Clubs)", &[22,35], &cards!(Seven of Diamonds, Ten of Clubs)),
    ("cards!(Seven of Diamonds, Jack of Spades,)", &[22,36], &cards!(Seven of Diamonds, Jack of Spades,)),
    ("cards!(Seven of Diamonds, Jack of Hearts)", &[22,37], &cards!(Seven of Diamonds, Jack of Hearts)),
    ("cards!(Seven of Diamonds, Jack of Diamonds,)", &[22,38], &cards!(Seven of Diamonds, Jack of Diamonds,)),
    ("cards!(Seven of Diamonds, Jack of Clubs)", &[22,39], &cards!(Seven of Diamonds, Jack of Clubs)),
    ("cards!(Seven of Diamonds, Queen of Spades,)", &[22,40], &cards!(Seven of Diamonds, Queen of Spades,)),
    ("cards!(Seven of Diamonds, Queen of Hearts)", &[22,41], &cards!(Seven of Diamonds, Queen of Hearts)),
    ("cards!(Seven of Diamonds, Queen of Diamonds,)", &[22,42], &cards!(Seven of Diamonds, Queen of Diamonds,)),
    ("cards!(Seven of Diamonds, Queen of Clubs)", &[22,43], &cards!(Seven of Diamonds, Queen of Clubs)),
    ("cards!(Seven of Diamonds, King of Spades,)", &[22,44], &cards!(Seven of Diamonds, King of Spades,)),
    ("cards!(Seven of Diamonds, King of Hearts)", &[22,45], &cards!(Seven of Diamonds, King of Hearts)),
    ("cards!(Seven of Diamonds, King of Diamonds,)", &[22,46], &cards!(Seven of Diamonds, King of Diamonds,)),
    ("cards!(Seven of Diamonds, King of Clubs)", &[22,47], &cards!(Seven of Diamonds, King of Clubs)),
    ("cards!(Seven of Diamonds, Ace of Spades,)", &[22,48], &cards!(Seven of Diamonds, Ace of Spades,)),
    ("cards!(Seven of Diamonds, Ace of Hearts)", &[22,49], &cards!(Seven of Diamonds, Ace of Hearts)),
    ("cards!(Seven of Diamonds, Ace of Diamonds,)", &[22,50], &cards!(Seven of Diamonds, Ace of Diamonds,)),
    ("cards!(Seven of Diamonds, Ace of Clubs)", &[22,51], &cards!(Seven of Diamonds, Ace of Clubs)),
    ("cards!(Seven of Clubs, Two of Spades)", &[23,0], &cards!(Seven of Clubs, Two of Spades)),
    ("cards!(Seven of Clubs, Two of Hearts,)", &[23,1], &cards!(Seven of Clubs, Two of Hearts,)),
    ("cards!(Seven of Clubs, Two of Diamonds)", &[23,2], &cards!(Seven of Clubs, Two of Diamonds)),
    ("cards!(Seven of Clubs, Two of Clubs,)", &[23,3], &cards!(Seven of Clubs, Two of Clubs,)),
    ("cards!(Seven of Clubs, Three of Spades)", &[23,4], &cards!(Seven of Clubs, Three of Spades)),
    ("cards!(Seven of Clubs, Three of Hearts,)", &[23,5], &cards!(Seven of Clubs, Three of Hearts,)),
    ("cards!(Seven of Clubs, Three of Diamonds)", &[23,6], &cards!(Seven of Clubs, Three of Diamonds)),
    ("cards!(Seven of Clubs, Three of Clubs,)", &[23,7], &cards!(Seven of Clubs, Three of Clubs,)),
    ("cards!(Seven of Clubs, Four of Spades)", &[23,8], &cards!(Seven of Clubs, Four of Spades)),
    ("cards!(Seven of Clubs, Four of Hearts,)", &[23,9], &cards!(Seven of Clubs, Four of Hearts,)),
    ("cards!(Seven of Clubs, Four of Diamonds)", &[23,10], &cards!(Seven of Clubs, Four of Diamonds)),
    ("cards!(Seven of Clubs, Four of Clubs,)", &[23,11], &cards!(Seven of Clubs, Four of Clubs,)),
    ("cards!(Seven of Clubs, Five of Spades)", &[23,12], &cards!(Seven of Clubs, Five of Spades)),
    ("cards!(Seven of Clubs, Five of Hearts,)", &[23,13], &cards!(Seven of Clubs, Five of Hearts,)),
    ("cards!(Seven of Clubs, Five of Diamonds)", &[23,14], &cards!(Seven of Clubs, Five of Diamonds)),
    ("cards!(Seven of Clubs, Five of Clubs,)", &[23,15], &cards!(Seven of Clubs, Five of Clubs,)),
    ("cards!(Seven of Clubs, Six of Spades)", &[23,16], &cards!(Seven of Clubs, Six of Spades)),
    ("cards!(Seven of Clubs, Six of Hearts,)", &[23,17], &cards!(Seven of Clubs, Six of Hearts,)),
    ("cards!(Seven of Clubs, Six of Diamonds)", &[23,18], &cards!(Seven of Clubs, Six of Diamonds)),
    ("cards!(Seven of Clubs, Six of Clubs,)", &[23,19], &cards!(Seven of Clubs, Six of Clubs,)),
    ("cards!(Seven of Clubs, Seven of Spades)", &[23,20], &cards!(Seven of Clubs, Seven of Spades)),
    ("cards!(Seven of Clubs, Seven of Hearts,)", &[23,21], &cards!(Seven of Clubs, Seven of Hearts,)),
    ("cards!(Seven of Clubs, Seven of Diamonds)", &[23,22], &cards!(Seven of Clubs, Seven of Diamonds)),
    ("cards!(Seven of Clubs, Seven of Clubs,)", &[23,23], &cards!(Seven of Clubs, Seven of Clubs,)),
    ("cards!(Seven of Clubs, Eight of Spades)", &[23,24], &cards!(Seven of Clubs, Eight of Spades)),
    ("cards!(Seven of Clubs, Eight of Hearts,)", &[23,25], &cards!(Seven of Clubs, Eight of Hearts,)),
    ("cards!(Seven of Clubs, Eight of Diamonds)", &[23,26], &cards!(Seven of Clubs, Eight of Diamonds)),
    ("cards!(Seven of Clubs, Eight of Clubs,)", &[23,27], &cards!(Seven of Clubs, Eight of Clubs,)),
    ("cards!(Seven of Clubs, Nine of Spades)", &[23,28], &cards!(Seven of Clubs, Nine of Spades)),
    ("cards!(Seven of Clubs, Nine of Hearts,)", &[23,29], &cards!(Seven of Clubs, Nine of Hearts,)),
    ("cards!(Seven of Clubs, Nine of Diamonds)", &[23,30], &cards!(Seven of Clubs, Nine of Diamonds)),
    ("cards!(Seven of Clubs, Nine of Clubs,)", &[23,31], &cards!(Seven of Clubs, Nine of Clubs,)),
    ("cards!(Seven of Clubs, Ten of Spades)", &[23,32], &cards!(Seven of Clubs, Ten of Spades)),
    ("cards!(Seven of Clubs, Ten of Hearts,)", &[23,33], &cards!(Seven of Clubs, Ten of Hearts,)),
    ("cards!(Seven of Clubs, Ten of Diamonds)", &[23,34], &cards!(Seven of Clubs, Ten of Diamonds)),
    ("cards!(Seven of Clubs, Ten of Clubs,)", &[23,35], &cards!(Seven of Clubs, Ten of Clubs,)),
    ("cards!(Seven of Clubs, Jack of Spades)", &[23,36], &cards!(Seven of Clubs, Jack of Spades)),
    ("cards!(Seven of Clubs, Jack of Hearts,)", &[23,37], &cards!(Seven of Clubs, Jack of Hearts,)),
    ("cards!(Seven of Clubs, Jack of Diamonds)", &[23,38], &cards!(Seven of Clubs, Jack of Diamonds)),
    ("cards!(Seven of Clubs, Jack of Clubs,)", &[23,39], &cards!(Seven of Clubs, Jack of Clubs,)),
    ("cards!(Seven of Clubs, Queen of Spades)", &[23,40], &cards!(Seven of Clubs, Queen of Spades)),
    ("cards!(Seven of Clubs, Queen of Hearts,)", &[23,41], &cards!(Seven of Clubs, Queen of Hearts,)),
    ("cards!(Seven of Clubs, Queen of Diamonds)", &[23,42], &cards!(Seven of Clubs, Queen of Diamonds)),
    ("cards!(Seven of Clubs, Queen of Clubs,)", &[23,43], &cards!(Seven of Clubs, Queen of Clubs,)),
    ("cards!(Seven of Clubs, King of Spades)", &[23,44], &cards!(Seven of Clubs, King of Spades)),
    ("cards!(Seven of Clubs, King of Hearts,)", &[23,45], &cards!(Seven of Clubs, King of Hearts,)),
    ("cards!(Seven of Clubs, King of Diamonds)", &[23,46], &cards!(Seven of Clubs, King of Diamonds)),
    ("cards!(Seven of Clubs, King of Clubs,)", &[23,47], &cards!(Seven of Clubs, King of Clubs,)),
    ("cards!(Seven of Clubs, Ace of Spades)", &[23,48], &cards!(Seven of Clubs, Ace of Spades)),
    ("cards!(Seven of Clubs, Ace of Hearts,)", &[23,49], &cards!(Seven of Clubs, Ace of Hearts,)),
    ("cards!(Seven of Clubs, Ace of Diamonds)", &[23,50], &cards!(Seven of Clubs, Ace of Diamonds)),
    ("cards!(Seven of Clubs, Ace of Clubs,)", &[23,51], &cards!(Seven of Clubs, Ace of Clubs,)),
    ("cards!(Eight of Spades, Two of Spades,)", &[24,0], &cards!(Eight of Spades, Two of Spades,)),
    ("cards!(Eight of Spades, Two of Hearts)", &[24,1], &cards!(Eight of Spades, Two of Hearts)),
    ("cards!(Eight of Spades, Two of Diamonds,)", &[24,2], &cards!(Eight of Spades, Two of Diamonds,)),
    ("cards!(Eight of Spades, Two of Clubs)", &[24,3], &cards!(Eight of Spades, Two of Clubs)),
    ("cards!(Eight of Spades, Three of Spades,)", &[24,4], &cards!(Eight of Spades, Three of Spades,)),
    ("cards!(Eight of Spades, Three of Hearts)", &[24,5], &cards!(Eight of Spades, Three of Hearts)),
    ("cards!(Eight of Spades, Three of Diamonds,)", &[24,6], &cards!(Eight of Spades, Three of Diamonds,)),
    ("cards!(Eight of Spades, Three of Clubs)", &[24,7], &cards!(Eight of Spades, Three of Clubs)),
    ("cards!(Eight of Spades, Four of Spades,)", &[24,8], &cards!(Eight of Spades, Four of Spades,)),
    ("cards!(Eight of Spades, Four of Hearts)", &[24,9], &cards!(Eight of Spades, Four of Hearts)),
    ("cards!(Eight of Spades, Four of Diamonds,)", &[24,10], &cards!(Eight of Spades, Four of Diamonds,)),
    ("cards!(Eight of Spades, Four of Clubs)", &[24,11], &cards!(Eight of Spades, Four of Clubs)),
    ("cards!(Eight of Spades, Five of Spades,)", &[24,12], &cards!(Eight of Spades, Five of Spades,)),
    ("cards!(Eight of Spades, Five of Hearts)", &[24,13], &cards!(Eight of Spades, Five of Hearts)),
    ("cards!(Eight of Spades, Five of Diamonds,)", &[24,14], &cards!(Eight of Spades, Five of Diamonds,)),
    ("cards!(Eight of Spades, Five of Clubs)", &[24,15], &cards!(Eight of Spades, Five of Clubs)),
    ("cards!(Eight of Spades, Six of Spades,)", &[24,16], &cards!(Eight of Spades, Six of Spades,)),
    ("cards!(Eight of Spades, Six of Hearts)", &[24,17], &cards!(Eight of Spades, Six of Hearts)),
    ("cards!(Eight of Spades, Six of Diamonds,)", &[24,18], &cards!(Eight of Spades, Six of Diamonds,)),
    ("cards!(Eight of Spades, Six of Clubs)", &[24,19], &cards!(Eight of Spades, Six of Clubs)),
    ("cards!(Eight of Spades, Seven of Spades,)", &[24,20], &cards!(Eight of Spades, Seven of Spades,)),
    ("cards!(Eight of Spades, Seven of Hearts)", &[24,21], &cards!(Eight of Spades, Seven of Hearts)),
    ("cards!(Eight of Spades, Seven of Diamonds,)", &[24,22], &cards!(Eight of Spades, Seven of Diamonds,)),
    ("cards!(Eight of Spades, Seven of Clubs)", &[24,23], &cards!(Eight of Spades, Seven of Clubs)),
    ("cards!(Eight of Spades, Eight of Spades,)", &[24,24], &cards!(Eight of Spades, Eight of Spades,)),
    ("cards!(Eight of Spades, Eight of Hearts)", &[24,25], &cards!(Eight of Spades, Eight of Hearts)),
    ("cards!(Eight of Spades, Eight of Diamonds,)", &[24,26], &cards!(Eight of Spades, Eight of Diamonds,)),
    ("cards!(Eight of Spades, Eight of Clubs)", &[24,27], &cards!(Eight of Spades, Eight of Clubs)),
    ("cards!(Eight of Spades, Nine of Spades,)", &[24,28], &cards!(Eight of Spades, Nine of Spades,)),
    ("cards!(Eight of Spades, Nine of Hearts)", &[24,29], &cards!(Eight of Spades, Nine of Hearts)),
    ("cards!(Eight of Spades, Nine of Diamonds,)", &[24,30], &cards!(Eight of Spades, Nine of Diamonds,)),
    ("cards!(Eight of Spades, Nine of Clubs)", &[24,31], &cards!(Eight of Spades, Nine of Clubs)),
    ("cards!(Eight of Spades, Ten of Spades,)", &[24,32], &cards!(Eight of Spades, Ten of Spades,)),
    ("cards!(Eight of Spades, Ten of Hearts)", &[24,33], &cards!(Eight of Spades, Ten of Hearts)),
    ("cards!(Eight of Spades, Ten of Diamonds,)", &[24,34], &cards!(Eight of Spades, Ten of Diamonds,)),
    ("cards!(Eight of Spades, Ten of Clubs)", &[24,35], &cards!(Eight of Spades, Ten of Clubs)),
    ("cards!(Eight of Spades, Jack of Spades,)", &[24,36], &cards!(Eight of Spades, Jack of Spades,)),
    ("cards!(Eight of Spades, Jack of Hearts)", &[24,37], &cards!(Eight of Spades, Jack of Hearts)),
    ("cards!(Eight of Spades, Jack of Diamonds,)", &[24,38], &cards!(Eight of Spades, Jack of Diamonds,)),
    ("cards!(Eight of Spades, Jack of Clubs)", &[24,39], &cards!(Eight of Spades, Jack of Clubs)),
    ("cards!(Eight of Spades, Queen of Spades,)", &[24,40], &cards!(Eight of Spades, Queen of Spades,)),
    ("cards!(Eight of Spades, Queen of Hearts)", &[24,41], &cards!(Eight of Spades, Queen of Hearts)),
    ("cards!(Eight of Spades, Queen of Diamonds,)", &[24,42], &cards!(Eight of Spades, Queen of Diamonds,)),
    ("cards!(Eight of Spades, Queen of Clubs)", &[24,43], &cards!(Eight of Spades, Queen of Clubs)),
    ("cards!(Eight of Spades, King of Spades,)", &[24,44], &cards!(Eight of Spades, King of Spades,)),
    ("cards!(Eight of Spades, King of Hearts)", &[24,45], &cards!(Eight of Spades, King of Hearts)),
    ("cards!(Eight of Spades, King of Diamonds,)", &[24,46], &cards!(Eight of Spades, King of Diamonds,)),
    ("cards!(Eight of Spades, King of Clubs)", &[24,47], &cards!(Eight of Spades, King of Clubs)),
    ("cards!(Eight of Spades, Ace of Spades,)", &[24,48], &cards!(Eight of Spades, Ace of Spades,)),
    ("cards!(Eight of Spades, Ace of Hearts)", &[24,49], &cards!(Eight of Spades, Ace of Hearts)),
    ("cards!(Eight of Spades, Ace of Diamonds,)", &[24,50], &cards!(Eight of Spades, Ace of Diamonds,)),
    ("cards!(Eight of Spades, Ace of Clubs)", &[24,51], &cards!(Eight of Spades, Ace of Clubs)),
    ("cards!(Eight of Hearts, Two of Spades)", &[25,0], &cards!(Eight of Hearts, Two of Spades)),
    ("cards!(Eight of Hearts, Two of Hearts,)", &[25,1], &cards!(Eight of Hearts, Two of Hearts,)),
    ("cards!(Eight of Hearts, Two of Diamonds)", &[25,2], &cards!(Eight of Hearts, Two of Diamonds)),
    ("cards!(Eight of Hearts, Two of Clubs,)", &[25,3], &cards!(Eight of Hearts, Two of Clubs,)),
    ("cards!(Eight of Hearts, Three of Spades)", &[25,4], &cards!(Eight of Hearts, Three of Spades)),
    ("cards!(Eight of Hearts, Three of Hearts,)", &[25,5], &cards!(Eight of Hearts, Three of Hearts,)),
    ("cards!(Eight of Hearts, Three of Diamonds)", &[25,6], &cards!(Eight of Hearts, Three of Diamonds)),
    ("cards!(Eight of Hearts, Three of Clubs,)", &[25,7], &cards!(Eight of Hearts, Three of Clubs,)),
    ("cards!(Eight of Hearts, Four of Spades)", &[25,8], &cards!(Eight of Hearts, Four of Spades)),
    ("cards!(Eight of Hearts, Four of Hearts,)", &[25,9], &cards!(Eight of Hearts, Four of Hearts,)),
    ("cards!(Eight of Hearts, Four of Diamonds)", &[25,10], &cards!(Eight of Hearts, Four of Diamonds)),
    ("cards!(Eight of Hearts, Four of Clubs,)", &[25,11], &cards!(Eight of Hearts, Four of Clubs,)),
    ("cards!(Eight of Hearts, Five of Spades)", &[25,12], &cards!(Eight of Hearts, Five of Spades)),
    ("cards!(Eight of Hearts, Five of Hearts,)", &[25,13], &cards!(Eight of Hearts, Five of Hearts,)),
    ("cards!(Eight of Hearts, Five of Diamonds)", &[25,14], &cards!(Eight of Hearts, Five of Diamonds)),
    ("cards!(Eight of Hearts, Five of Clubs,)", &[25,15], &cards!(Eight of Hearts, Five of Clubs,)),
    ("cards!(Eight of Hearts, Six of Spades)", &[25,16], &cards!(Eight of Hearts, Six of Spades)),
    ("cards!(Eight of Hearts, Six of Hearts,)", &[25,17], &cards!(Eight of Hearts, Six of Hearts,)),
    ("cards!(Eight of Hearts, Six of Diamonds)", &[25,18], &cards!(Eight of Hearts, Six of Diamonds)),
    ("cards!(Eight of Hearts, Six of Clubs,)", &[25,19], &cards!(Eight of Hearts, Six of Clubs,)),
    ("cards!(Eight of Hearts, Seven of Spades)", &[25,20], &cards!(Eight of Hearts, Seven of Spades)),
    ("cards!(Eight of Hearts, Seven of Hearts,)", &[25,21], &cards!(Eight of Hearts, Seven of Hearts,)),
    ("cards!(Eight of Hearts, Seven of Diamonds)", &[25,22], &cards!(Eight of Hearts, Seven of Diamonds)),
    ("cards!(Eight of Hearts, Seven of Clubs,)", &[25,23], &cards!(Eight of Hearts, Seven of Clubs,)),
    ("cards!(Eight of Hearts, Eight of Spades)", &[25,24], &cards!(Eight of Hearts, Eight of Spades)),
    ("cards!(Eight of Hearts, Eight of Hearts,)", &[25,25], &cards!(Eight of Hearts, Eight of Hearts,)),
    ("cards!(Eight of Hearts, Eight of Diamonds)", &[25,26], &cards!(Eight of Hearts, Eight of Diamonds)),
    ("cards!(Eight of Hearts, Eight of Clubs,)", &[25,27], &cards!(Eight of Hearts, Eight of Clubs,)),
    ("cards!(Eight of Hearts, Nine of Spades)", &[25,28], &cards!(Eight of Hearts, Nine of Spades)),
    ("cards!(Eight of Hearts, Nine of Hearts,)", &[25,29], &cards!(Eight of Hearts, Nine of Hearts,)),
    ("cards!(Eight of Hearts, Nine of Diamonds)", &[25,30], &cards!(Eight of Hearts, Nine of Diamonds)),
    ("cards!(Eight of Hearts, Nine of Clubs,)", &[25,31], &cards!(Eight of Hearts, Nine of Clubs,)),
    ("cards!(Eight of Hearts, Ten of Spades)", &[25,32], &cards!(Eight of Hearts, Ten of Spades)),
    ("cards!(Eight of Hearts, Ten of Hearts,)", &[25,33], &cards!(Eight of Hearts, Ten of Hearts,)),
    ("cards!(Eight of Hearts, Ten of Diamonds)", &[25,34], &cards!(Eight of Hearts, Ten of Diamonds)),
    ("cards!(Eight of Hearts, Ten of Clubs,)", &[25,35], &cards!(Eight of Hearts, Ten of Clubs,)),
    ("cards!(Eight of Hearts, Jack of Spades)", &[25,36], &cards!(Eight of Hearts, Jack of Spades)),
    ("cards!(Eight of Hearts, Jack of Hearts,)", &[25,37], &cards!(Eight of Hearts, Jack of Hearts,)),
    ("cards!(Eight of Hearts, Jack of Diamonds)", &[25,38], &cards!(Eight of Hearts, Jack of Diamonds)),
    ("cards!(Eight of Hearts, Jack of Clubs,)", &[25,39], &cards!(Eight of Hearts, Jack of Clubs,)),
    ("cards!(Eight of Hearts, Queen of Spades)", &[25,40], &cards!(Eight of Hearts, Queen of Spades)),
    ("cards!(Eight of Hearts, Queen of Hearts,)", &[25,41], &cards!(Eight of Hearts, Queen of Hearts,)),
    ("cards!(Eight of Hearts, Queen of Diamonds)", &[25,42], &cards!(Eight of Hearts, Queen of Diamonds)),
    ("cards!(Eight of Hearts, Queen of Clubs,)", &[25,43], &cards!(Eight of Hearts, Queen of Clubs,)),
    ("cards!(Eight of Hearts, King of Spades)", &[25,44], &cards!(Eight of Hearts, King of Spades)),
    ("cards!(Eight of Hearts, King of Hearts,)", &[25,45], &cards!(Eight of Hearts, King of Hearts,)),
    ("cards!(Eight of Hearts, King of Diamonds)", &[25,46], &cards!(Eight of Hearts, King of Diamonds)),
    ("cards!(Eight of Hearts, King of Clubs,)", &[25,47], &cards!(Eight of Hearts, King of Clubs,)),
    ("cards!(Eight of Hearts, Ace of Spades)", &[25,48], &cards!(Eight of Hearts, Ace of Spades)),
    ("cards!(Eight of Hearts, Ace of Hearts,)", &[25,49], &cards!(Eight of Hearts, Ace of Hearts,)),
    ("cards!(Eight of Hearts, Ace of Diamonds)", &[25,50], &cards!(Eight of Hearts, Ace of Diamonds)),
    ("cards!(Eight of Hearts, Ace of Clubs,)", &[25,51], &cards!(Eight of Hearts, Ace of Clubs,)),
    ("cards!(Eight of Diamonds, Two of Spades,)", &[26,0], &cards!(Eight of Diamonds, Two of Spades,)),
    ("cards!(Eight of Diamonds, Two of Hearts)", &[26,1], &cards!(Eight of Diamonds, Two of Hearts)),
    ("cards!(Eight of Diamonds, Two of Diamonds,)", &[26,2], &cards!(Eight of Diamonds, Two of Diamonds,)),
    ("cards!(Eight of Diamonds, Two of Clubs)", &[26,3], &cards!(Eight of Diamonds, Two of Clubs)),
    ("cards!(Eight of Diamonds, Three of Spades,)", &[26,4], &cards!(Eight of Diamonds, Three of Spades,)),
    ("cards!(Eight of Diamonds, Three of Hearts)", &[26,5], &cards!(Eight of Diamonds, Three of Hearts)),
    ("cards!(Eight of Diamonds, Three of Diamonds,)", &[26,6], &cards!(Eight of Diamonds, Three of Diamonds,)),
    ("cards!(Eight of Diamonds, Three of Clubs)", &[26,7], &cards!(Eight of Diamonds, Three of Clubs)),
    ("cards!(Eight of Diamonds, Four of Spades,)", &[26,8], &cards!(Eight of Diamonds, Four of Spades,)),
    ("cards!(Eight of Diamonds, Four of Hearts)", &[26,9], &cards!(Eight of Diamonds, Four of Hearts)),
    ("cards!(Eight of Diamonds, Four of Diamonds,)", &[26,10], &cards!(Eight of Diamonds, Four of Diamonds,)),
    ("cards!(Eight of Diamonds, Four of Clubs)", &[26,11], &cards!(Eight of Diamonds, Four of Clubs)),
    ("cards!(Eight of Diamonds, Five of Spades,)", &[26,12], &cards!(Eight of Diamonds, Five of Spades,)),
    ("cards!(Eight of Diamonds, Five of Hearts)", &[26,13], &cards!(Eight of Diamonds, Five of Hearts)),
    ("cards!(Eight of Diamonds, Five of Diamonds,)", &[26,14], &cards!(Eight of Diamonds, Five of Diamonds,)),
    ("cards!(Eight of Diamonds, Five of Clubs)", &[26,15], &cards!(Eight of Diamonds, Five of Clubs)),
    ("cards!(Eight of Diamonds, Six of Spades,)", &[26,16], &cards!(Eight of Diamonds, Six of Spades,)),
    ("cards!(Eight of Diamonds, Six of Hearts)", &[26,17], &cards!(Eight of Diamonds, Six of Hearts)),
    ("cards!(Eight of Diamonds, Six of Diamonds,)", &[26,18], &cards!(Eight of Diamonds, Six of Diamonds,)),
    ("cards!(Eight of Diamonds, Six of Clubs)", &[26,19], &cards!(Eight of Diamonds, Six of Clubs)),
    ("cards!(Eight of Diamonds, Seven of Spades,)", &[26,20], &cards!(Eight of Diamonds, Seven of Spades,)),
    ("cards!(Eight of Diamonds, Seven of Hearts)", &[26,21], &cards!(Eight of Diamonds, Seven of Hearts)),
    ("cards!(Eight of Diamonds, Seven of Diamonds,)", &[26,22], &cards!(Eight of Diamonds, Seven of Diamonds,)),
    ("cards!(Eight of Diamonds, Seven of Clubs)", &[26,23], &cards!(Eight of Diamonds, Seven of Clubs)),
    ("cards!(Eight of Diamonds, Eight of Spades,)", &[26,24], &cards!(Eight of Diamonds, Eight of Spades,)),
    ("cards!(Eight of Diamonds, Eight of Hearts)", &[26,25], &cards!(Eight of Diamonds, Eight of Hearts)),
    ("cards!(Eight of Diamonds, Eight of Diamonds,)", &[26,26], &cards!(Eight of Diamonds, Eight of Diamonds,)),
    ("cards!(Eight of Diamonds, Eight of Clubs)", &[26,27], &cards!(Eight of Diamonds, Eight of Clubs)),
    ("cards!(Eight of Diamonds, Nine of Spades,)", &[26,28], &cards!(Eight of Diamonds, Nine of Spades,)),
    ("cards!(Eight of Diamonds, Nine of Hearts)", &[26,29], &cards!(Eight of Diamonds, Nine of Hearts)),
    ("cards!(Eight of Diamonds, Nine of Diamonds,)", &[26,30], &cards!(Eight of Diamonds, Nine of Diamonds,)),
    ("cards!(Eight of Diamonds, Nine of Clubs)", &[26,31], &cards!(Eight of Diamonds, Nine of Clubs)),
    ("cards!(Eight of Diamonds, Ten of Spades,)", &[26,32], &cards!(Eight of Diamonds, Ten of Spades,)),
    ("cards!(Eight of Diamonds, Ten of Hearts)", &[26,33], &cards!(Eight of Diamonds, Ten of Hearts)),
    ("cards!(Eight of Diamonds, Ten of Diamonds,)", &[26,34], &cards!(Eight of Diamonds, Ten of Diamonds,)),
    ("cards!(Eight of Diamonds, Ten of Clubs)", &[26,35], &cards!(Eight of Diamonds, Ten of Clubs)),
    ("cards!(Eight of Diamonds, Jack of Spades,)", &[26,36], &cards!(Eight of Diamonds, Jack of Spades,)),
    ("cards!(Eight of Diamonds, Jack of Hearts)", &[26,37], &cards!(Eight of Diamonds, Jack of Hearts)),
    ("cards!(Eight of Diamonds, Jack of Diamonds,)", &[26,38], &cards!(Eight of Diamonds, Jack of Diamonds,)),
    ("cards!(Eight of Diamonds, Jack of Clubs)", &[26,39], &cards!(Eight of Diamonds, Jack of Clubs)),
    ("cards!(Eight of Diamonds, Queen of Spades,)", &[26,40], &cards!(Eight of Diamonds, Queen of Spades,)),
    ("cards!(Eight of Diamonds, Queen of Hearts)", &[26,41], &cards!(Eight of Diamonds, Queen of Hearts)),
    ("cards!(Eight of Diamonds, Queen of Diamonds,)", &[26,42], &cards!(Eight of Diamonds, Queen of Diamonds,)),
    ("cards!(Eight of Diamonds, Queen of Clubs)", &[26,43], &cards!(Eight of Diamonds, Queen of Clubs)),
    ("cards!(Eight of Diamonds, King of Spades,)", &[26,44], &cards!(Eight of Diamonds, King of Spades,)),
    ("cards!(Eight of Diamonds, King of Hearts)", &[26,45], &cards!(Eight of Diamonds, King of Hearts)),
    ("cards!(Eight of Diamonds, King of Diamonds,)", &[26,46], &cards!(Eight of Diamonds, King of Diamonds,)),
    ("cards!(Eight of Diamonds, King of Clubs)", &[26,47], &cards!(Eight of Diamonds, King of Clubs)),
    ("cards!(Eight of Diamonds, Ace of Spades,)", &[26,48], &cards!(Eight of Diamonds, Ace of Spades,)),
    ("cards!(Eight of Diamonds, Ace of Hearts)", &[26,49], &cards!(Eight of Diamonds, Ace of Hearts)),
    ("cards!(Eight of Diamonds, Ace of Diamonds,)", &[26,50], &cards!(Eight of Diamonds, Ace of Diamonds,)),
    ("cards!(Eight of Diamonds, Ace of Clubs)", &[26,51], &cards!(Eight of Diamonds, Ace of Clubs)),
    ("cards!(Eight of Clubs, Two of Spades)", &[27,0], &cards!(Eight of Clubs, Two of Spades)),
    ("cards!(Eight of Clubs, Two of Hearts,)", &[27,1], &cards!(Eight of Clubs, Two of Hearts,)),
    ("cards!(Eight of Clubs, Two of Diamonds)", &[27,2], &cards!(Eight of Clubs, Two of Diamonds)),
    ("cards!(Eight of Clubs, Two of Clubs,)", &[27,3], &cards!(Eight of Clubs, Two of Clubs,)),
    ("cards!(Eight of Clubs, Three of Spades)", &[27,4], &cards!(Eight of Clubs, Three of Spades)),
    ("cards!(Eight of Clubs, Three of Hearts,)", &[27,5], &cards!(Eight of Clubs, Three of Hearts,)),
    ("cards!(Eight of Clubs, Three of Diamonds)", &[27,6], &cards!(Eight of Clubs, Three of Diamonds)),
    ("cards!(Eight of Clubs, Three of Clubs,)", &[27,7], &cards!(Eight of Clubs, Three of Clubs,)),
    ("cards!(Eight of Clubs, Four of Spades)", &[27,8], &cards!(Eight of Clubs, Four of Spades)),
    ("cards!(Eight of Clubs, Four of Hearts,)", &[27,9], &cards!(Eight of Clubs, Four of Hearts,)),
    ("cards!(Eight of Clubs, Four of Diamonds)", &[27,10], &cards!(Eight of Clubs, Four of Diamonds)),
    ("cards!(Eight of Clubs, Four of Clubs,)", &[27,11], &cards!(Eight of Clubs, Four of Clubs,)),
    ("cards!(Eight of Clubs, Five of Spades)", &[27,12], &cards!(Eight of Clubs, Five of Spades)),
    ("cards!(Eight of Clubs, Five of Hearts,)", &[27,13], &cards!(Eight of Clubs, Five of Hearts,)),
    ("cards!(Eight of Clubs, Five of Diamonds)", &[27,14], &cards!(Eight of Clubs, Five of Diamonds)),
    ("cards!(Eight of Clubs, Five of Clubs,)", &[27,15], &cards!(Eight of Clubs, Five of Clubs,)),
    ("cards!(Eight of Clubs, Six of Spades)", &[27,16], &cards!(Eight of Clubs, Six of Spades)),
    ("cards!(Eight of Clubs, Six of Hearts,)", &[27,17], &cards!(Eight of Clubs, Six of Hearts,)),
    ("cards!(Eight of Clubs, Six of Diamonds)", &[27,18], &cards!(Eight of Clubs, Six of Diamonds)),
    ("cards!(Eight of Clubs, Six of Clubs,)", &[27,19], &cards!(Eight of Clubs, Six of Clubs,)),
    ("cards!(Eight of Clubs, Seven of Spades)", &[27,20], &cards!(Eight of Clubs, Seven of Spades)),
    ("cards!(Eight of Clubs, Seven of Hearts,)", &[27,21], &cards!(Eight of Clubs, Seven of Hearts,)),
    ("cards!(Eight of Clubs, Seven of Diamonds)", &[27,22], &cards!(Eight of Clubs, Seven of Diamonds)),
    ("cards!(Eight of Clubs, Seven of Clubs,)", &[27,23], &cards!(Eight of Clubs, Seven of Clubs,)),
    ("cards!(Eight of Clubs, Eight of Spades)", &[27,24], &cards!(Eight of Clubs, Eight of Spades)),
    ("cards!(Eight of Clubs, Eight of Hearts,)", &[27,25], &cards!(Eight of Clubs, Eight of Hearts,)),
    ("cards!(Eight of Clubs, Eight of Diamonds)", &[27,26], &cards!(Eight of Clubs, Eight of Diamonds)),
    ("cards!(Eight of Clubs, Eight of Clubs,)", &[27,27], &cards!(Eight of Clubs, Eight of Clubs,)),
    ("cards!(Eight of Clubs, Nine of Spades)", &[27,28], &cards!(Eight of Clubs, Nine of Spades)),
    ("cards!(Eight of Clubs, Nine of Hearts,)", &[27,29], &cards!(Eight of Clubs, Nine of Hearts,)),
    ("cards!(Eight of Clubs, Nine of Diamonds)", &[27,30], &cards!(Eight of Clubs, Nine of Diamonds)),
    ("cards!(Eight of Clubs, Nine of Clubs,)", &[27,31], &cards!(Eight of Clubs, Nine of Clubs,)),
    ("cards!(Eight of Clubs, Ten of Spades)", &[27,32], &cards!(Eight of Clubs, Ten of Spades)),
    ("cards!(Eight of Clubs, Ten of Hearts,)", &[27,33], &cards!(Eight of Clubs, Ten of Hearts,)),
    ("cards!(Eight of Clubs, Ten of Diamonds)", &[27,34], &cards!(Eight of Clubs, Ten of Diamonds)),
    ("cards!(Eight of Clubs, Ten of Clubs,)", &[27,35], &cards!(Eight of Clubs, Ten of Clubs,)),
    ("cards!(Eight of Clubs, Jack of Spades)", &[27,36], &cards!(Eight of Clubs, Jack of Spades)),
    ("cards!(Eight of Clubs, Jack of Hearts,)", &[27,37], &cards!(Eight of Clubs, Jack of Hearts,)),
    ("cards!(Eight of Clubs, Jack of Diamonds)", &[27,38], &cards!(Eight of Clubs, Jack of Diamonds)),
    ("cards!(Eight of Clubs, Jack of Clubs,)", &[27,39], &cards!(Eight of Clubs, Jack of Clubs,)),
    ("cards!(Eight of Clubs, Queen of Spades)", &[27,40], &cards!(Eight of Clubs, Queen of Spades)),
    ("cards!(Eight of Clubs, Queen of Hearts,)", &[27,41], &cards!(Eight of Clubs, Queen of Hearts,)),
    ("cards!(Eight of Clubs, Queen of Diamonds)", &[27,42], &cards!(Eight of Clubs, Queen of Diamonds)),
    ("cards!(Eight of Clubs, Queen of Clubs,)", &[27,43], &cards!(Eight of Clubs, Queen of Clubs,)),
    ("cards!(Eight of Clubs, King of Spades)", &[27,44], &cards!(Eight of Clubs, King of Spades)),
    ("cards!(Eight of Clubs, King of Hearts,)", &[27,45], &cards!(Eight of Clubs, King of Hearts,)),
    ("cards!(Eight of Clubs, King of Diamonds)", &[27,46], &cards!(Eight of Clubs, King of Diamonds)),
    ("cards!(Eight of Clubs, King of Clubs,)", &[27,47], &cards!(Eight of Clubs, King of Clubs,)),
    ("cards!(Eight of Clubs, Ace of Spades)", &[27,48], &cards!(Eight of Clubs, Ace of Spades)),
    ("cards!(Eight of Clubs, Ace of Hearts,)", &[27,49], &cards!(Eight of Clubs, Ace of Hearts,)),
    ("cards!(Eight of Clubs, Ace of Diamonds)", &[27,50], &cards!(Eight of Clubs, Ace of Diamonds)),
    ("cards!(Eight of Clubs, Ace of Clubs,)", &[27,51], &cards!(Eight of Clubs, Ace of Clubs,)),
    ("cards!(Nine of Spades, Two of Spades,)", &[28,0], &cards!(Nine of Spades, Two of Spades,)),
    ("cards!(Nine of Spades, Two of Hearts)", &[28,1], &cards!(Nine of Spades, Two of Hearts)),
    ("cards!(Nine of Spades, Two of Diamonds,)", &[28,2], &cards!(Nine of Spades, Two of Diamonds,)),
    ("cards!(Nine of Spades, Two of Clubs)", &[28,3], &cards!(Nine of Spades, Two of Clubs)),
    ("cards!(Nine of Spades, Three of Spades,)", &[28,4], &cards!(Nine of Spades, Three of Spades,)),
    ("cards!(Nine of Spades, Three of Hearts)", &[28,5], &cards!(Nine of Spades, Three of Hearts)),
    ("cards!(Nine of Spades, Three of Diamonds,)", &[28,6], &cards!(Nine of Spades, Three of Diamonds,)),
    ("cards!(Nine of Spades, Three of Clubs)", &[28,7], &cards!(Nine of Spades, Three of Clubs)),
    ("cards!(Nine of Spades, Four of Spades,)", &[28,8], &cards!(Nine of Spades, Four of Spades,)),
    ("cards!(Nine of Spades, Four of Hearts)", &[28,9], &cards!(Nine of Spades, Four of Hearts)),
    ("cards!(Nine of Spades, Four of Diamonds,)", &[28,10], &cards!(Nine of Spades, Four of Diamonds,)),
    ("cards!(Nine of Spades, Four of Clubs)", &[28,11], &cards!(Nine of Spades, Four of Clubs)),
    ("cards!(Nine of Spades, Five of Spades,)", &[28,12], &cards!(Nine of Spades, Five of Spades,)),
    ("cards!(Nine of Spades, Five of Hearts)", &[28,13], &cards!(Nine of Spades, Five of Hearts)),
    ("cards!(Nine of Spades, Five of Diamonds,)", &[28,14], &cards!(Nine of Spades, Five of Diamonds,)),
    ("cards!(Nine of Spades, Five of Clubs)", &[28,15], &cards!(Nine of Spades, Five of Clubs)),
    ("cards!(Nine of Spades, Six of Spades,)", &[28,16], &cards!(Nine of Spades, Six of Spades,)),
    ("cards!(Nine of Spades, Six of Hearts)", &[28,17], &cards!(Nine of Spades, Six of Hearts)),
    ("cards!(Nine of Spades, Six of Diamonds,)", &[28,18], &cards!(Nine of Spades, Six of Diamonds,)),
    ("cards!(Nine of Spades, Six of Clubs)", &[28,19], &cards!(Nine of Spades, Six of Clubs)),
    ("cards!(Nine of Spades, Seven of Spades,)", &[28,20], &cards!(Nine of Spades, Seven of Spades,)),
    ("cards!(Nine of Spades, Seven of Hearts)", &[28,21], &cards!(Nine of Spades, Seven of Hearts)),
    ("cards!(Nine of Spades, Seven of Diamonds,)", &[28,22], &cards!(Nine of Spades, Seven of Diamonds,)),
    ("cards!(Nine of Spades, Seven of Clubs)", &[28,23], &cards!(Nine of Spades, Seven of Clubs)),
    ("cards!(Nine of Spades, Eight of Spades,)", &[28,24], &cards!(Nine of Spades, Eight of Spades,)),
    ("cards!(Nine of Spades, Eight of Hearts)", &[28,25], &cards!(Nine of Spades, Eight of Hearts)),
    ("cards!(Nine of Spades, Eight of Diamonds,)", &[28,26], &cards!(Nine of Spades, Eight of Diamonds,)),
    ("cards!(Nine of Spades, Eight of Clubs)", &[28,27], &cards!(Nine of Spades, Eight of Clubs)),
    ("cards!(Nine of Spades, Nine of Spades,)", &[28,28], &cards!(Nine of Spades, Nine of Spades,)),
    ("cards!(Nine of Spades, Nine of Hearts)", &[28,29], &cards!(Nine of Spades, Nine of Hearts)),
    ("cards!(Nine of Spades, Nine of Diamonds,)", &[28,30], &cards!(Nine of Spades, Nine of Diamonds,)),
    ("cards!(Nine of Spades, Nine of Clubs)", &[28,31], &cards!(Nine of Spades, Nine of Clubs)),
    ("cards!(Nine of Spades, Ten of Spades,)", &[28,32], &cards!(Nine of Spades, Ten of Spades,)),
    ("cards!(Nine of Spades, Ten of Hearts)", &[28,33], &cards!(Nine of Spades, Ten of Hearts)),
    ("cards!(Nine of Spades, Ten of Diamonds,)", &[28,34], &cards!(Nine of Spades, Ten of Diamonds,)),
    ("cards!(Nine of Spades, Ten of Clubs)", &[28,35], &cards!(Nine of Spades, Ten of Clubs)),
    ("cards!(Nine of Spades, Jack of Spades,)", &[28,36], &cards!(Nine of Spades, Jack of Spades,)),
    ("cards!(Nine of Spades, Jack of Hearts)", &[28,37], &cards!(Nine of Spades, Jack of Hearts)),
    ("cards!(Nine of Spades, Jack of Diamonds,)", &[28,38], &cards!(Nine of Spades, Jack of Diamonds,)),
    ("cards!(Nine of Spades, Jack of Clubs)", &[28,39], &cards!(Nine of Spades, Jack of Clubs)),
    ("cards!(Nine of Spades, Queen of Spades,)", &[28,40], &cards!(Nine of Spades, Queen of Spades,)),
    ("cards!(Nine of Spades, Queen of Hearts)", &[28,41], &cards!(Nine of Spades, Queen of Hearts)),
    ("cards!(Nine of Spades, Queen of Diamonds,)", &[28,42], &cards!(Nine of Spades, Queen of Diamonds,)),
    ("cards!(Nine of Spades, Queen of Clubs)", &[28,43], &cards!(Nine of Spades, Queen of Clubs)),
    ("cards!(Nine of Spades, King of Spades,)", &[28,44], &cards!(Nine of Spades, King of Spades,)),
    ("cards!(Nine of Spades, King of Hearts)", &[28,45], &cards!(Nine of Spades, King of Hearts)),
    ("cards!(Nine of Spades, King of Diamonds,)", &[28,46], &cards!(Nine of Spades, King of Diamonds,)),
    ("cards!(Nine of Spades, King of Clubs)", &[28,47], &cards!(Nine of Spades, King of Clubs)),
    ("cards!(Nine of Spades, Ace of Spades,)", &[28,48], &cards!(Nine of Spades, Ace of Spades,)),
    ("cards!(Nine of Spades, Ace of Hearts)", &[28,49], &cards!(Nine of Spades, Ace of Hearts)),
    ("cards!(Nine of Spades, Ace of Diamonds,)", &[28,50], &cards!(Nine of Spades, Ace of Diamonds,)),
    ("cards!(Nine of Spades, Ace of Clubs)", &[28,51], &cards!(Nine of Spades, Ace of Clubs)),
    ("cards!(Nine of Hearts, Two of Spades)", &[29,0], &cards!(Nine of Hearts, Two of Spades)),
    ("cards!(Nine of Hearts, Two of Hearts,)", &[29,1], &cards!(Nine of Hearts, Two of Hearts,)),
    ("cards!(Nine of Hearts, Two of Diamonds)", &[29,2], &cards!(Nine of Hearts, Two of Diamonds)),
    ("cards!(Nine of Hearts, Two of Clubs,)", &[29,3], &cards!(Nine of Hearts, Two of Clubs,)),
    ("cards!(Nine of Hearts, Three of Spades)", &[29,4], &cards!(Nine of Hearts, Three of Spades)),
    ("cards!(Nine of Hearts, Three of Hearts,)", &[29,5], &cards!(Nine of Hearts, Three of Hearts,)),
    ("cards!(Nine of Hearts, Three of Diamonds)", &[29,6], &cards!(Nine of Hearts, Three of Diamonds)),
    ("cards!(Nine of Hearts, Three of Clubs,)", &[29,7], &cards!(Nine of Hearts, Three of Clubs,)),
    ("cards!(Nine of Hearts, Four of Spades)", &[29,8], &cards!(Nine of Hearts, Four of Spades)),
    ("cards!(Nine of Hearts, Four of Hearts,)", &[29,9], &cards!(Nine of Hearts, Four of Hearts,)),
    ("cards!(Nine of Hearts, Four of Diamonds)", &[29,10], &cards!(Nine of Hearts, Four of Diamonds)),
    ("cards!(Nine of Hearts, Four of Clubs,)", &[29,11], &cards!(Nine of Hearts, Four of Clubs,)),
    ("cards!(Nine of Hearts, Five of Spades)", &[29,12], &cards!(Nine of Hearts, Five of Spades)),
    ("cards!(Nine of Hearts, Five of Hearts,)", &[29,13], &cards!(Nine of Hearts, Five of Hearts,)),
    ("cards!(Nine of Hearts, Five of Diamonds)", &[29,14], &cards!(Nine of Hearts, Five of Diamonds)),
    ("cards!(Nine of Hearts, Five of Clubs,)", &[29,15], &cards!(Nine of Hearts, Five of Clubs,)),
    ("cards!(Nine of Hearts, Six of Spades)", &[29,16], &cards!(Nine of Hearts, Six of Spades)),
    ("cards!(Nine of Hearts, Six of Hearts,)", &[29,17], &cards!(Nine of Hearts, Six of Hearts,)),
    ("cards!(Nine of Hearts, Six of Diamonds)", &[29,18], &cards!(Nine of Hearts, Six of Diamonds)),
    ("cards!(Nine of Hearts, Six of Clubs,)", &[29,19], &cards!(Nine of Hearts, Six of Clubs,)),
    ("cards!(Nine of Hearts, Seven of Spades)", &[29,20], &cards!(Nine of Hearts, Seven of Spades)),
    ("cards!(Nine of Hearts, Seven of Hearts,)", &[29,21], &cards!(Nine of Hearts, Seven of Hearts,)),
    ("cards!(Nine of Hearts, Seven of Diamonds)", &[29,22], &cards!(Nine of Hearts, Seven of Diamonds)),
    ("cards!(Nine of Hearts, Seven of Clubs,)", &[29,23], &cards!(Nine of Hearts, Seven of Clubs,)),
    ("cards!(Nine of Hearts, Eight of Spades)", &[29,24], &cards!(Nine of Hearts, Eight of Spades)),
    ("cards!(Nine of Hearts, Eight of Hearts,)", &[29,25], &cards!(Nine of Hearts, Eight of Hearts,)),
    ("cards!(Nine of Hearts, Eight of Diamonds)", &[29,26], &cards!(Nine of Hearts, Eight of Diamonds)),
    ("cards!(Nine of Hearts, Eight of Clubs,)", &[29,27], &cards!(Nine of Hearts, Eight of Clubs,)),
    ("cards!(Nine of Hearts, Nine of Spades)", &[29,28], &cards!(Nine of Hearts, Nine of Spades)),
    ("cards!(Nine of Hearts, Nine of Hearts,)", &[29,29], &cards!(Nine of Hearts, Nine of Hearts,)),
    ("cards!(Nine of Hearts, Nine of Diamonds)", &[29,30], &cards!(Nine of Hearts, Nine of Diamonds)),
    ("cards!(Nine of Hearts, Nine of Clubs,)", &[29,31], &cards!(Nine of Hearts, Nine of Clubs,)),
    ("cards!(Nine of Hearts, Ten of Spades)", &[29,32], &cards!(Nine of Hearts, Ten of Spades)),
    ("cards!(Nine of Hearts, Ten of Hearts,)", &[29,33], &cards!(Nine of Hearts, Ten of Hearts,)),
    ("cards!(Nine of Hearts, Ten of Diamonds)", &[29,34], &cards!(Nine of Hearts, Ten of Diamonds)),
    ("cards!(Nine of Hearts, Ten of Clubs,)", &[29,35], &cards!(Nine of Hearts, Ten of Clubs,)),
    ("cards!(Nine of Hearts, Jack of Spades)", &[29,36], &cards!(Nine of Hearts, Jack of Spades)),
    ("cards!(Nine of Hearts, Jack of Hearts,)", &[29,37], &cards!(Nine of Hearts, Jack of Hearts,)),
    ("cards!(Nine of Hearts, Jack of Diamonds)", &[29,38], &cards!(Nine of Hearts, Jack of Diamonds)),
    ("cards!(Nine of Hearts, Jack of Clubs,)", &[29,39], &cards!(Nine of Hearts, Jack of Clubs,)),
    ("cards!(Nine of Hearts, Queen of Spades)", &[29,40], &cards!(Nine of Hearts, Queen of Spades)),
    ("cards!(Nine of Hearts, Queen of Hearts,)", &[29,41], &cards!(Nine of Hearts, Queen of Hearts,)),
    ("cards!(Nine of Hearts, Queen of Diamonds)", &[29,42], &cards!(Nine of Hearts, Queen of Diamonds)),
    ("cards!(Nine of Hearts, Queen of Clubs,)", &[29,43], &cards!(Nine of Hearts, Queen of Clubs,)),
    ("cards!(Nine of Hearts, King of Spades)", &[29,44], &cards!(Nine of Hearts, King of Spades)),
    ("cards!(Nine of Hearts, King of Hearts,)", &[29,45], &cards!(Nine of Hearts, King of Hearts,)),
    ("cards!(Nine of Hearts, King of Diamonds)", &[29,46], &cards!(Nine of Hearts, King of Diamonds)),
    ("cards!(Nine of Hearts, King of Clubs,)", &[29,47], &cards!(Nine of Hearts, King of Clubs,)),
    ("cards!(Nine of Hearts, Ace of Spades)", &[29,48], &cards!(Nine of Hearts, Ace of Spades)),
    ("cards!(Nine of Hearts, Ace of Hearts,)", &[29,49], &cards!(Nine of Hearts, Ace of Hearts,)),
    ("cards!(Nine of Hearts, Ace of Diamonds)", &[29,50], &cards!(Nine of Hearts, Ace of Diamonds)),
    ("cards!(Nine of Hearts, Ace of Clubs,)", &[29,51], &cards!(Nine of Hearts, Ace of Clubs,)),
    ("cards!(Nine of Diamonds, Two of Spades,)", &[30,0], &cards!(Nine of Diamonds, Two of Spades,)),
    ("cards!(Nine of Diamonds, Two of Hearts)", &[30,1], &cards!(Nine of Diamonds, Two of Hearts)),
    ("cards!(Nine of Diamonds, Two of Diamonds,)", &[30,2], &cards!(Nine of Diamonds, Two of Diamonds,)),
    ("cards!(Nine of Diamonds, Two of Clubs)", &[30,3], &cards!(Nine of Diamonds, Two of Clubs)),
    ("cards!(Nine of Diamonds, Three of Spades,)", &[30,4], &cards!(Nine of Diamonds, Three of Spades,)),
    ("cards!(Nine of Diamonds, Three of Hearts)", &[30,5], &cards!(Nine of Diamonds, Three of Hearts)),
    ("cards!(Nine of Diamonds, Three of Diamonds,)", &[30,6], &cards!(Nine of Diamonds, Three of Diamonds,)),
    ("cards!(Nine of Diamonds, Three of Clubs)", &[30,7], &cards!(Nine of Diamonds, Three of Clubs)),
    ("cards!(Nine of Diamonds, Four of Spades,)", &[30,8], &cards!(Nine of Diamonds, Four of Spades,)),
    ("cards!(Nine of Diamonds, Four of Hearts)", &[30,9], &cards!(Nine of Diamonds, Four of Hearts)),
    ("cards!(Nine of Diamonds, Four of Diamonds,)", &[30,10], &cards!(Nine of Diamonds, Four of Diamonds,)),
    ("cards!(Nine of Diamonds, Four of Clubs)", &[30,11], &cards!(Nine of Diamonds, Four of Clubs)),
    ("cards!(Nine of Diamonds, Five of Spades,)", &[30,12], &cards!(Nine of Diamonds, Five of Spades,)),
    ("cards!(Nine of Diamonds, Five of Hearts)", &[30,13], &cards!(Nine of Diamonds, Five of Hearts)),
    ("cards!(Nine of Diamonds, Five of Diamonds,)", &[30,14], &cards!(Nine of Diamonds, Five of Diamonds,)),
    ("cards!(Nine of Diamonds, Five of Clubs)", &[30,15], &cards!(Nine of Diamonds, Five of Clubs)),
    ("cards!(Nine of Diamonds, Six of Spades,)", &[30,16], &cards!(Nine of Diamonds, Six of Spades,)),
    ("cards!(Nine of Diamonds, Six of Hearts)", &[30,17], &cards!(Nine of Diamonds, Six of Hearts)),
    ("cards!(Nine of Diamonds, Six of Diamonds,)", &[30,18], &cards!(Nine of Diamonds, Six of Diamonds,)),
    ("cards!(Nine of Diamonds, Six of Clubs)", &[30,19], &cards!(Nine of Diamonds, Six of Clubs)),
    ("cards!(Nine of Diamonds, Seven of Spades,)", &[30,20], &cards!(Nine of Diamonds, Seven of Spades,)),
    ("cards!(Nine of Diamonds, Seven of Hearts)", &[30,21], &cards!(Nine of Diamonds, Seven of Hearts)),
    ("cards!(Nine of Diamonds, Seven of Diamonds,)", &[30,22], &cards!(Nine of Diamonds, Seven of Diamonds,)),
    ("cards!(Nine of Diamonds, Seven of Clubs)", &[30,23], &cards!(Nine of Diamonds, Seven of Clubs)),
    ("cards!(Nine of Diamonds, Eight of Spades,)", &[30,24], &cards!(Nine of Diamonds, Eight of Spades,)),
    ("cards!(Nine of Diamonds, Eight of Hearts)", &[30,25], &cards!(Nine of Diamonds, Eight of Hearts)),
    ("cards!(Nine of Diamonds, Eight of Diamonds,)", &[30,26], &cards!(Nine of Diamonds, Eight of Diamonds,)),
    ("cards!(Nine of Diamonds, Eight of Clubs)", &[30,27], &cards!(Nine of Diamonds, Eight of Clubs)),
    ("cards!(Nine of Diamonds, Nine of Spades,)", &[30,28], &cards!(Nine of Diamonds, Nine of Spades,)),
    ("cards!(Nine of Diamonds, Nine of Hearts)", &[30,29], &cards!(Nine of Diamonds, Nine of Hearts)),
    ("cards!(Nine of Diamonds, Nine of Diamonds,)", &[30,30], &cards!(Nine of Diamonds, Nine of Diamonds,)),
    ("cards!(Nine of Diamonds, Nine of Clubs)", &[30,31], &cards!(Nine of Diamonds, Nine of Clubs)),
    ("cards!(Nine of Diamonds, Ten of Spades,)", &[30,32], &cards!(Nine of Diamonds, Ten of Spades,)),
    ("cards!(Nine of Diamonds, Ten of Hearts)", &[30,33], &cards!(Nine of Diamonds, Ten of Hearts)),
    ("cards!(Nine of Diamonds, Ten of Diamonds,)", &[30,34], &cards!(Nine of Diamonds, Ten of Diamonds,)),
    ("cards!(Nine of Diamonds, Ten of Clubs)", &[30,35], &cards!(Nine of Diamonds, Ten of Clubs)),
    ("cards!(Nine of Diamonds, Jack of Spades,)", &[30,36], &cards!(Nine of Diamonds, Jack of Spades,)),
    ("cards!(Nine of Diamonds, Jack of Hearts)", &[30,37], &cards!(Nine of Diamonds, Jack of Hearts)),
    ("cards!(Nine of Diamonds, Jack of Diamonds,)", &[30,38], &cards!(Nine of Diamonds, Jack of Diamonds,)),
    ("cards!(Nine of Diamonds, Jack of Clubs)", &[30,39], &cards!(Nine of Diamonds, Jack of Clubs)),
    ("cards!(Nine of Diamonds, Queen of Spades,)", &[30,40], &cards!(Nine of Diamonds, Queen of Spades,)),
    ("cards!(Nine of Diamonds, Queen of Hearts)", &[30,41], &cards!(Nine of Diamonds, Queen of Hearts)),
    ("cards!(Nine of Diamonds, Queen of Diamonds,)", &[30,42], &cards!(Nine of Diamonds, Queen of Diamonds,)),
    ("cards!(Nine of Diamonds, Queen of Clubs)", &[30,43], &cards!(Nine of Diamonds, Queen of Clubs)),
    ("cards!(Nine of Diamonds, King of Spades,)", &[30,44], &cards!(Nine of Diamonds, King of Spades,)),
    ("cards!(Nine of Diamonds, King of Hearts)", &[30,45], &cards!(Nine of Diamonds, King of Hearts)),
    ("cards!(Nine of Diamonds, King of Diamonds,)", &[30,46], &cards!(Nine of Diamonds, King of Diamonds,)),
    ("cards!(Nine of Diamonds, King of Clubs)", &[30,47], &cards!(Nine of Diamonds, King of Clubs)),
    ("cards!(Nine of Diamonds, Ace of Spades,)", &[30,48], &cards!(Nine of Diamonds, Ace of Spades,)),
    ("cards!(Nine of Diamonds, Ace of Hearts)", &[30,49], &cards!(Nine of Diamonds, Ace of Hearts)),
    ("cards!(Nine of Diamonds, Ace of Diamonds,)", &[30,50], &cards!(Nine of Diamonds, Ace of Diamonds,)),
    ("cards!(Nine of Diamonds, Ace of Clubs)", &[30,51], &cards!(Nine of Diamonds, Ace of Clubs)),
    ("cards!(Nine of Clubs, Two of Spades)", &[31,0], &cards!(Nine of Clubs, Two of Spades)),
    ("cards!(Nine of Clubs, Two of Hearts,)", &[31,1], &cards!(Nine of Clubs, Two of Hearts,)),
    ("cards!(Nine of Clubs, Two of Diamonds)", &[31,2], &cards!(Nine of Clubs, Two of Diamonds)),
    ("cards!(Nine of Clubs, Two of Clubs,)", &[31,3], &cards!(Nine of Clubs, Two of Clubs,)),
    ("cards!(Nine of Clubs, Three of Spades)", &[31,4], &cards!(Nine of Clubs, Three of Spades)),
    ("cards!(Nine of Clubs, Three of Hearts,)", &[31,5], &cards!(Nine of Clubs, Three of Hearts,)),
    ("cards!(Nine of Clubs, Three of Diamonds)", &[31,6], &cards!(Nine of Clubs, Three of Diamonds)),
    ("cards!(Nine of Clubs, Three of Clubs,)", &[31,7], &cards!(Nine of Clubs, Three of Clubs,)),
    ("cards!(Nine of Clubs, Four of Spades)", &[31,8], &cards!(Nine of Clubs, Four of Spades)),
    ("cards!(Nine of Clubs, Four of Hearts,)", &[31,9], &cards!(Nine of Clubs, Four of Hearts,)),
    ("cards!(Nine of Clubs, Four of Diamonds)", &[31,10], &cards!(Nine of Clubs, Four of Diamonds)),
    ("cards!(Nine of Clubs, Four of Clubs,)", &[31,11], &cards!(Nine of Clubs, Four of Clubs,)),
    ("cards!(Nine of Clubs, Five of Spades)", &[31,12], &cards!(Nine of Clubs, Five of Spades)),
    ("cards!(Nine of Clubs, Five of Hearts,)", &[31,13], &cards!(Nine of Clubs, Five of Hearts,)),
    ("cards!(Nine of Clubs, Five of Diamonds)", &[31,14], &cards!(Nine of Clubs, Five of Diamonds)),
    ("cards!(Nine of Clubs, Five of Clubs,)", &[31,15], &cards!(Nine of Clubs, Five of Clubs,)),
    ("cards!(Nine of Clubs, Six of Spades)", &[31,16], &cards!(Nine of Clubs, Six of Spades)),
    ("cards!(Nine of Clubs, Six of Hearts,)", &[31,17], &cards!(Nine of Clubs, Six of Hearts,)),
    ("cards!(Nine of Clubs, Six of Diamonds)", &[31,18], &cards!(Nine of Clubs, Six of Diamonds)),
    ("cards!(Nine of Clubs, Six of Clubs,)", &[31,19], &cards!(Nine of Clubs, Six of Clubs,)),
    ("cards!(Nine of Clubs, Seven of Spades)", &[31,20], &cards!(Nine of Clubs, Seven of Spades)),
    ("cards!(Nine of Clubs, Seven of Hearts,)", &[31,21], &cards!(Nine of Clubs, Seven of Hearts,)),
    ("cards!(Nine of Clubs, Seven of Diamonds)", &[31,22], &cards!(Nine of Clubs, Seven of Diamonds)),
    ("cards!(Nine of Clubs, Seven of Clubs,)", &[31,23], &cards!(Nine of Clubs, Seven of Clubs,)),
    ("cards!(Nine of Clubs, Eight of Spades)", &[31,24], &cards!(Nine of Clubs, Eight of Spades)),
    ("cards!(Nine of Clubs, Eight of Hearts,)", &[31,25], &cards!(Nine of Clubs, Eight of Hearts,)),
    ("cards!(Nine of Clubs, Eight of Diamonds)", &[31,26], &cards!(Nine of Clubs, Eight of Diamonds)),
    ("cards!(Nine of Clubs, Eight of Clubs,)", &[31,27], &cards!(Nine of Clubs, Eight of Clubs,)),
    ("cards!(Nine of Clubs, Nine of Spades)", &[31,28], &cards!(Nine of Clubs, Nine of Spades)),
    ("cards!(Nine of Clubs, Nine of Hearts,)", &[31,29], &cards!(Nine of Clubs, Nine of Hearts,)),
    ("cards!(Nine of Clubs, Nine of Diamonds)", &[31,30], &cards!(Nine of Clubs, Nine of Diamonds)),
    ("cards!(Nine of Clubs, Nine of Clubs,)", &[31,31], &cards!(Nine of Clubs, Nine of Clubs,)),
    ("cards!(Nine of Clubs, Ten of Spades)", &[31,32], &cards!(Nine of Clubs, Ten of Spades)),
    ("cards!(Nine of Clubs, Ten of Hearts,)", &[31,33], &cards!(Nine of Clubs, Ten of Hearts,)),
    ("cards!(Nine of Clubs, Ten of Diamonds)", &[31,34], &cards!(Nine of Clubs, Ten of Diamonds)),
    ("cards!(Nine of Clubs, Ten of Clubs,)", &[31,35], &cards!(Nine of Clubs, Ten of Clubs,)),
    ("cards!(Nine of Clubs, Jack of Spades)", &[31,36], &cards!(Nine of Clubs, Jack of Spades)),
    ("cards!(Nine of Clubs, Jack of Hearts,)", &[31,37], &cards!(Nine of Clubs, Jack of Hearts,)),
    ("cards!(Nine of Clubs, Jack of Diamonds)", &[31,38], &cards!(Nine of Clubs, Jack of Diamonds)),
    ("cards!(Nine of Clubs, Jack of Clubs,)", &[31,39], &cards!(Nine of Clubs, Jack of Clubs,)),
    ("cards!(Nine of Clubs, Queen of Spades)", &[31,40], &cards!(Nine of Clubs, Queen of Spades)),
    ("cards!(Nine of Clubs, Queen of Hearts,)", &[31,41], &cards!(Nine of Clubs, Queen of Hearts,)),
    ("cards!(Nine of Clubs, Queen of Diamonds)", &[31,42], &cards!(Nine of Clubs, Queen of Diamonds)),
    ("cards!(Nine of Clubs, Queen of Clubs,)", &[31,43], &cards!(Nine of Clubs, Queen of Clubs,)),
    ("cards!(Nine of Clubs, King of Spades)", &[31,44], &cards!(Nine of Clubs, King of Spades)),
    ("cards!(Nine of Clubs, King of Hearts,)", &[31,45], &cards!(Nine of Clubs, King of Hearts,)),
    ("cards!(Nine of Clubs, King of Diamonds)", &[31,46], &cards!(Nine of Clubs, King of Diamonds)),
    ("cards!(Nine of Clubs, King of Clubs,)", &[31,47], &cards!(Nine of Clubs, King of Clubs,)),
    ("cards!(Nine of Clubs, Ace of Spades)", &[31,48], &cards!(Nine of Clubs, Ace of Spades)),
    ("cards!(Nine of Clubs, Ace of Hearts,)", &[31,49], &cards!(Nine of Clubs, Ace of Hearts,)),
    ("cards!(Nine of Clubs, Ace of Diamonds)", &[31,50], &cards!(Nine of Clubs, Ace of Diamonds)),
    ("cards!(Nine of Clubs, Ace of Clubs,)", &[31,51], &cards!(Nine of Clubs, Ace of Clubs,)),
    ("cards!(Ten of Spades, Two of Spades,)", &[32,0], &cards!(Ten of Spades, Two of Spades,)),
    ("cards!(Ten of Spades, Two of Hearts)", &[32,1], &cards!(Ten of Spades, Two of Hearts)),
    ("cards!(Ten of Spades, Two of Diamonds,)", &[32,2], &cards!(Ten of Spades, Two of Diamonds,)),
    ("cards!(Ten of Spades, Two of Clubs)", &[32,3], &cards!(Ten of Spades, Two of Clubs)),
    ("cards!(Ten of Spades, Three of Spades,)", &[32,4], &cards!(Ten of Spades, Three of Spades,)),
    ("cards!(Ten of Spades, Three of Hearts)", &[32,5], &cards!(Ten of Spades, Three of Hearts)),
    ("cards!(Ten of Spades, Three of Diamonds,)", &[32,6], &cards!(Ten of Spades, Three of Diamonds,)),
    ("cards!(Ten of Spades, Three of Clubs)", &[32,7], &cards!(Ten of Spades, Three of Clubs)),
    ("cards!(Ten of Spades, Four of Spades,)", &[32,8], &cards!(Ten of Spades, Four of Spades,)),
    ("cards!(Ten of Spades, Four of Hearts)", &[32,9], &cards!(Ten of Spades, Four of Hearts)),
    ("cards!(Ten of Spades, Four of Diamonds,)", &[32,10], &cards!(Ten of Spades, Four of Diamonds,)),
    ("cards!(Ten of Spades, Four of Clubs)", &[32,11], &cards!(Ten of Spades, Four of Clubs)),
    ("cards!(Ten of Spades, Five of Spades,)", &[32,12], &cards!(Ten of Spades, Five of Spades,)),
    ("cards!(Ten of Spades, Five of Hearts)", &[32,13], &cards!(Ten of Spades, Five of Hearts)),
    ("cards!(Ten of Spades, Five of Diamonds,)", &[32,14], &cards!(Ten of Spades, Five of Diamonds,)),
    ("cards!(Ten of Spades, Five of Clubs)", &[32,15], &cards!(Ten of Spades, Five of Clubs)),
    ("cards!(Ten of Spades, Six of Spades,)", &[32,16], &cards!(Ten of Spades, Six of Spades,)),
    ("cards!(Ten of Spades, Six of Hearts)", &[32,17], &cards!(Ten of Spades, Six of Hearts)),
    ("cards!(Ten of Spades, Six of Diamonds,)", &[32,18], &cards!(Ten of Spades, Six of Diamonds,)),
    ("cards!(Ten of Spades, Six of Clubs)", &[32,19], &cards!(Ten of Spades, Six of Clubs)),
    ("cards!(Ten of Spades, Seven of Spades,)", &[32,20], &cards!(Ten of Spades, Seven of Spades,)),
    ("cards!(Ten of Spades, Seven of Hearts)", &[32,21], &cards!(Ten of Spades, Seven of Hearts)),
    ("cards!(Ten of Spades, Seven of Diamonds,)", &[32,22], &cards!(Ten of Spades, Seven of Diamonds,)),
    ("cards!(Ten of Spades, Seven of Clubs)", &[32,23], &cards!(Ten of Spades, Seven of Clubs)),
    ("cards!(Ten of Spades, Eight of Spades,)", &[32,24], &cards!(Ten of Spades, Eight of Spades,)),
    ("cards!(Ten of Spades, Eight of Hearts)", &[32,25], &cards!(Ten of Spades, Eight of Hearts)),
    ("cards!(Ten of Spades, Eight of Diamonds,)", &[32,26], &cards!(Ten of Spades, Eight of Diamonds,)),
    ("cards!(Ten of Spades, Eight of Clubs)", &[32,27], &cards!(Ten of Spades, Eight of Clubs)),
    ("cards!(Ten of Spades, Nine of Spades,)", &[32,28], &cards!(Ten of Spades, Nine of Spades,)),
    ("cards!(Ten of Spades, Nine of Hearts)", &[32,29], &cards!(Ten of Spades, Nine of Hearts)),
    ("cards!(Ten of Spades, Nine of Diamonds,)", &[32,30], &cards!(Ten of Spades, Nine of Diamonds,)),
    ("cards!(Ten of Spades, Nine of Clubs)", &[32,31], &cards!(Ten of Spades, Nine of Clubs)),
    ("cards!(Ten of Spades, Ten of Spades,)", &[32,32], &cards!(Ten of Spades, Ten of Spades,)),
    ("cards!(Ten of Spades, Ten of Hearts)", &[32,33], &cards!(Ten of Spades, Ten of Hearts)),
    ("cards!(Ten of Spades, Ten of Diamonds,)", &[32,34], &cards!(Ten of Spades, Ten of Diamonds,)),
    ("cards!(Ten of Spades, Ten of Clubs)", &[32,35], &cards!(Ten of Spades, Ten of Clubs)),
    ("cards!(Ten of Spades, Jack of Spades,)", &[32,36], &cards!(Ten of Spades, Jack of Spades,)),
    ("cards!(Ten of Spades, Jack of Hearts)", &[32,37], &cards!(Ten of Spades, Jack of Hearts)),
    ("cards!(Ten of Spades, Jack of Diamonds,)", &[32,38], &cards!(Ten of Spades, Jack of Diamonds,)),
    ("cards!(Ten of Spades, Jack of Clubs)", &[32,39], &cards!(Ten of Spades, Jack of Clubs)),
    ("cards!(Ten of Spades, Queen of Spades,)", &[32,40], &cards!(Ten of Spades, Queen of Spades,)),
    ("cards!(Ten of Spades, Queen of Hearts)", &[32,41], &cards!(Ten of Spades, Queen of Hearts)),
    ("cards!(Ten of Spades, Queen of Diamonds,)", &[32,42], &cards!(Ten of Spades, Queen of Diamonds,)),
    ("cards!(Ten of Spades, Queen of Clubs)", &[32,43], &cards!(Ten of Spades, Queen of Clubs)),
    ("cards!(Ten of Spades, King of Spades,)", &[32,44], &cards!(Ten of Spades, King of Spades,)),
    ("cards!(Ten of Spades, King of Hearts)", &[32,45], &cards!(Ten of Spades, King of Hearts)),
    ("cards!(Ten of Spades, King of Diamonds,)", &[32,46], &cards!(Ten of Spades, King of Diamonds,)),
    ("cards!(Ten of Spades, King of Clubs)", &[32,47], &cards!(Ten of Spades, King of Clubs)),
    ("cards!(Ten of Spades, Ace of Spades,)", &[32,48], &cards!(Ten of Spades, Ace of Spades,)),
    ("cards!(Ten of Spades, Ace of Hearts)", &[32,49], &cards!(Ten of Spades, Ace of Hearts)),
    ("cards!(Ten of Spades, Ace of Diamonds,)", &[32,50], &cards!(Ten of Spades, Ace of Diamonds,)),
    ("cards!(Ten of Spades, Ace of Clubs)", &[32,51], &cards!(Ten of Spades, Ace of Clubs)),
    ("cards!(Ten of Hearts, Two of Spades)", &[33,0], &cards!(Ten of Hearts, Two of Spades)),
    ("cards!(Ten of Hearts, Two of Hearts,)", &[33,1], &cards!(Ten of Hearts, Two of Hearts,)),
    ("cards!(Ten of Hearts, Two of Diamonds)", &[33,2], &cards!(Ten of Hearts, Two of Diamonds)),
    ("cards!(Ten of Hearts, Two of Clubs,)", &[33,3], &cards!(Ten of Hearts, Two of Clubs,)),
    ("cards!(Ten of Hearts, Three of Spades)", &[33,4], &cards!(Ten of Hearts, Three of Spades)),
    ("cards!(Ten of Hearts, Three of Hearts,)", &[33,5], &cards!(Ten of Hearts, Three of Hearts,)),
    ("cards!(Ten of Hearts, Three of Diamonds)", &[33,6], &cards!(Ten of Hearts, Three of Diamonds)),
    ("cards!(Ten of Hearts, Three of Clubs,)", &[33,7], &cards!(Ten of Hearts, Three of Clubs,)),
    ("cards!(Ten of Hearts, Four of Spades)", &[33,8], &cards!(Ten of Hearts, Four of Spades)),
    ("cards!(Ten of Hearts, Four of Hearts,)", &[33,9], &cards!(Ten of Hearts, Four of Hearts,)),
    ("cards!(Ten of Hearts, Four of Diamonds)", &[33,10], &cards!(Ten of Hearts, Four of Diamonds)),
    ("cards!(Ten of Hearts, Four of Clubs,)", &[33,11], &cards!(Ten of Hearts, Four of Clubs,)),
    ("cards!(Ten of Hearts, Five of Spades)", &[33,12], &cards!(Ten of Hearts, Five of Spades)),
    ("cards!(Ten of Hearts, Five of Hearts,)", &[33,13], &cards!(Ten of Hearts, Five of Hearts,)),
    ("cards!(Ten of Hearts, Five of Diamonds)", &[33,14], &cards!(Ten of Hearts, Five of Diamonds)),
    ("cards!(Ten of Hearts, Five of Clubs,)", &[33,15], &cards!(Ten of Hearts, Five of Clubs,)),
    ("cards!(Ten of Hearts, Six of Spades)", &[33,16], &cards!(Ten of Hearts, Six of Spades)),
    ("cards!(Ten of Hearts, Six of Hearts,)", &[33,17], &cards!(Ten of Hearts, Six of Hearts,)),
    ("cards!(Ten of Hearts, Six of Diamonds)", &[33,18], &cards!(Ten of Hearts, Six of Diamonds)),
    ("cards!(Ten of Hearts, Six of Clubs,)", &[33,19], &cards!(Ten of Hearts, Six of Clubs,)),
    ("cards!(Ten of Hearts, Seven of Spades)", &[33,20], &cards!(Ten of Hearts, Seven of Spades)),
    ("cards!(Ten of Hearts, Seven of Hearts,)", &[33,21], &cards!(Ten of Hearts, Seven of Hearts,)),
    ("cards!(Ten of Hearts, Seven of Diamonds)", &[33,22], &cards!(Ten of Hearts, Seven of Diamonds)),
    ("cards!(Ten of Hearts, Seven of Clubs,)", &[33,23], &cards!(Ten of Hearts, Seven of Clubs,)),
    ("cards!(Ten of Hearts, Eight of Spades)", &[33,24], &cards!(Ten of Hearts, Eight of Spades)),
    ("cards!(Ten of Hearts, Eight of Hearts,)", &[33,25], &cards!(Ten of Hearts, Eight of Hearts,)),
    ("cards!(Ten of Hearts, Eight of Diamonds)", &[33,26], &cards!(Ten of Hearts, Eight of Diamonds)),
    ("cards!(Ten of Hearts, Eight of Clubs,)", &[33,27], &cards!(Ten of Hearts, Eight of Clubs,)),
    ("cards!(Ten of Hearts, Nine of Spades)", &[33,28], &cards!(Ten of Hearts, Nine of Spades)),
    ("cards!(Ten of Hearts, Nine of Hearts,)", &[33,29], &cards!(Ten of Hearts, Nine of Hearts,)),
    ("cards!(Ten of Hearts, Nine of Diamonds)", &[33,30], &cards!(Ten of Hearts, Nine of Diamonds)),
    ("cards!(Ten of Hearts, Nine of Clubs,)", &[33,31], &cards!(Ten of Hearts, Nine of Clubs,)),
    ("cards!(Ten of Hearts, Ten of Spades)", &[33,32], &cards!(Ten of Hearts, Ten of Spades)),
    ("cards!(Ten of Hearts, Ten of Hearts,)", &[33,33], &cards!(Ten of Hearts, Ten of Hearts,)),
    ("cards!(Ten of Hearts, Ten of Diamonds)", &[33,34], &cards!(Ten of Hearts, Ten of Diamonds)),
    ("cards!(Ten of Hearts, Ten of Clubs,)", &[33,35], &cards!(Ten of Hearts, Ten of Clubs,)),
    ("cards!(Ten of Hearts, Jack of Spades)", &[33,36], &cards!(Ten of Hearts, Jack of Spades)),
    ("cards!(Ten of Hearts, Jack of Hearts,)", &[33,37], &cards!(Ten of Hearts, Jack of Hearts,)),
    ("cards!(Ten of Hearts, Jack of Diamonds)", &[33,38], &cards!(Ten of Hearts, Jack of Diamonds)),
    ("cards!(Ten of Hearts, Jack of Clubs,)", &[33,39], &cards!(Ten of Hearts, Jack of Clubs,)),
    ("cards!(Ten of Hearts, Queen of Spades)", &[33,40], &cards!(Ten of Hearts, Queen of Spades)),
    ("cards!(Ten of Hearts, Queen of Hearts,)", &[33,41], &cards!(Ten of Hearts, Queen of Hearts,)),
    ("cards!(Ten of Hearts, Queen of Diamonds)", &[33,42], &cards!(Ten of Hearts, Queen of Diamonds)),
    ("cards!(Ten of Hearts, Queen of Clubs,)", &[33,43], &cards!(Ten of Hearts, Queen of Clubs,)),
    ("cards!(Ten of Hearts, King of Spades)", &[33,44], &cards!(Ten of Hearts, King of Spades)),
    ("cards!(Ten of Hearts, King of Hearts,)", &[33,45], &cards!(Ten of Hearts, King of Hearts,)),
    ("cards!(Ten of Hearts, King of Diamonds)", &[33,46], &cards!(Ten of Hearts, King of Diamonds)),
    ("cards!(Ten of Hearts, King of Clubs,)", &[33,47], &cards!(Ten of Hearts, King of Clubs,)),
    ("cards!(Ten of Hearts, Ace of Spades)", &[33,48], &cards!(Ten of Hearts, Ace of Spades)),
    ("cards!(Ten of Hearts, Ace of Hearts,)", &[33,49], &cards!(Ten of Hearts, Ace of Hearts,)),
    ("cards!(Ten of Hearts, Ace of Diamonds)", &[33,50], &cards!(Ten of Hearts, Ace of Diamonds)),
    ("cards!(Ten of Hearts, Ace of Clubs,)", &[33,51], &cards!(Ten of Hearts, Ace of Clubs,)),
    ("cards!(Ten of Diamonds, Two of Spades,)", &[34,0], &cards!(Ten of Diamonds, Two of Spades,)),
    ("cards!(Ten of Diamonds, Two of Hearts)", &[34,1], &cards!(Ten of Diamonds, Two of Hearts)),
    ("cards!(Ten of Diamonds, Two of Diamonds,)", &[34,2], &cards!(Ten of Diamonds, Two of Diamonds,)),
    ("cards!(Ten of Diamonds, Two of Clubs)", &[34,3], &cards!(Ten of Diamonds, Two of Clubs)),
    ("cards!(Ten of Diamonds, Three of Spades,)", &[34,4], &cards!(Ten of Diamonds, Three of Spades,)),
    ("cards!(Ten of Diamonds, Three of Hearts)", &[34,5], &cards!(Ten of Diamonds, Three of Hearts)),
    ("cards!(Ten of Diamonds, Three of Diamonds,)", &[34,6], &cards!(Ten of Diamonds, Three of Diamonds,)),
    ("cards!(Ten of Diamonds, Three of Clubs)", &[34,7], &cards!(Ten of Diamonds, Three of Clubs)),
    ("cards!(Ten of Diamonds, Four of Spades,)", &[34,8], &cards!(Ten of Diamonds, Four of Spades,)),
    ("cards!(Ten of Diamonds, Four of Hearts)", &[34,9], &cards!(Ten of Diamonds, Four of Hearts)),
    ("cards!(Ten of Diamonds, Four of Diamonds,)", &[34,10], &cards!(Ten of Diamonds, Four of Diamonds,)),
    ("cards!(Ten of Diamonds, Four of Clubs)", &[34,11], &cards!(Ten of Diamonds, Four of Clubs)),
    ("cards!(Ten of Diamonds, Five of Spades,)", &[34,12], &cards!(Ten of Diamonds, Five of Spades,)),
    ("cards!(Ten of Diamonds, Five of Hearts)", &[34,13], &cards!(Ten of Diamonds, Five of Hearts)),
    ("cards!(Ten of Diamonds, Five of Diamonds,)", &[34,14], &cards!(Ten of Diamonds, Five of Diamonds,)),
    ("cards!(Ten of Diamonds, Five of Clubs)", &[34,15], &cards!(Ten of Diamonds, Five of Clubs)),
    ("cards!(Ten of Diamonds, Six of Spades,)", &[34,16], &cards!(Ten of Diamonds, Six of Spades,)),
    ("cards!(Ten of Diamonds, Six of Hearts)", &[34,17], &cards!(Ten of Diamonds, Six of Hearts)),
    ("cards!(Ten of Diamonds, Six of Diamonds,)", &[34,18], &cards!(Ten of Diamonds, Six of Diamonds,)),
    ("cards!(Ten of Diamonds, Six of Clubs)", &[34,19], &cards!(Ten of Diamonds, Six of Clubs)),
    ("cards!(Ten of Diamonds, Seven of Spades,)", &[34,20], &cards!(Ten of Diamonds, Seven of Spades,)),
    ("cards!(Ten of Diamonds, Seven of Hearts)", &[34,21], &cards!(Ten of Diamonds, Seven of Hearts)),
    ("cards!(Ten of Diamonds, Seven of Diamonds,)", &[34,22], &cards!(Ten of Diamonds, Seven of Diamonds,)),
    ("cards!(Ten of Diamonds, Seven of Clubs)", &[34,23], &cards!(Ten of Diamonds, Seven of Clubs)),
    ("cards!(Ten of Diamonds, Eight of Spades,)", &[34,24], &cards!(Ten of Diamonds, Eight of Spades,)),
    ("cards!(Ten of Diamonds, Eight of Hearts)", &[34,25], &cards!(Ten of Diamonds, Eight of Hearts)),
    ("cards!(Ten of Diamonds, Eight of Diamonds,)", &[34,26], &cards!(Ten of Diamonds, Eight of Diamonds,)),
    ("cards!(Ten of Diamonds, Eight of Clubs)", &[34,27], &cards!(Ten of Diamonds, Eight of Clubs)),
    ("cards!(Ten of Diamonds, Nine of Spades,)", &[34,28], &cards!(Ten of Diamonds, Nine of Spades,)),
    ("cards!(Ten of Diamonds, Nine of Hearts)", &[34,29], &cards!(Ten of Diamonds, Nine of Hearts)),
    ("cards!(Ten of Diamonds, Nine of Diamonds,)", &[34,30], &cards!(Ten of Diamonds, Nine of Diamonds,)),
    ("cards!(Ten of Diamonds, Nine of Clubs)", &[34,31], &cards!(Ten of Diamonds, Nine of Clubs)),
    ("cards!(Ten of Diamonds, Ten of Spades,)", &[34,32], &cards!(Ten of Diamonds, Ten of Spades,)),
    ("cards!(Ten of Diamonds, Ten of Hearts)", &[34,33], &cards!(Ten of Diamonds, Ten of Hearts)),
    ("cards!(Ten of Diamonds, Ten of Diamonds,)", &[34,34], &cards!(Ten of Diamonds, Ten of Diamonds,)),
    ("cards!(Ten of Diamonds, Ten of Clubs)", &[34,35], &cards!(Ten of Diamonds, Ten of Clubs)),
    ("cards!(Ten of Diamonds, Jack of Spades,)", &[34,36], &cards!(Ten of Diamonds, Jack of Spades,)),
    ("cards!(Ten of Diamonds, Jack of Hearts)", &[34,37], &cards!(Ten of Diamonds, Jack of Hearts)),
    ("cards!(Ten of Diamonds, Jack of Diamonds,)", &[34,38], &cards!(Ten of Diamonds, Jack of Diamonds,)),
    ("cards!(Ten of Diamonds, Jack of Clubs)", &[34,39], &cards!(Ten of Diamonds, Jack of Clubs)),
    ("cards!(Ten of Diamonds, Queen of Spades,)", &[34,40], &cards!(Ten of Diamonds, Queen of Spades,)),
    ("cards!(Ten of Diamonds, Queen of Hearts)", &[34,41], &cards!(Ten of Diamonds, Queen of Hearts)),
    ("cards!(Ten of Diamonds, Queen of Diamonds,)", &[34,42], &cards!(Ten of Diamonds, Queen of Diamonds,)),
    ("cards!(Ten of Diamonds, Queen of Clubs)", &[34,43], &cards!(Ten of Diamonds, Queen of Clubs)),
    ("cards!(Ten of Diamonds, King of Spades,)", &[34,44], &cards!(Ten of Diamonds, King of Spades,)),
    ("cards!(Ten of Diamonds, King of Hearts)", &[34,45], &cards!(Ten of Diamonds, King of Hearts)),
    ("cards!(Ten of Diamonds, King of Diamonds,)", &[34,46], &cards!(Ten of Diamonds, King of Diamonds,)),
    ("cards!(Ten of Diamonds, King of Clubs)", &[34,47], &cards!(Ten of Diamonds, King of Clubs)),
    ("cards!(Ten of Diamonds, Ace of Spades,)", &[34,48], &cards!(Ten of Diamonds, Ace of Spades,)),
    ("cards!(Ten of Diamonds, Ace of Hearts)", &[34,49], &cards!(Ten of Diamonds, Ace of Hearts)),
    ("cards!(Ten of Diamonds, Ace of Diamonds,)", &[34,50], &cards!(Ten of Diamonds, Ace of Diamonds,)),
    ("cards!(Ten of Diamonds, Ace of Clubs)", &[34,51], &cards!(Ten of Diamonds, Ace of Clubs)),
    ("cards!(Ten of Clubs, Two of Spades)", &[35,0], &cards!(Ten of Clubs, Two of Spades)),
    ("cards!(Ten of Clubs, Two of Hearts,)", &[35,1], &cards!(Ten of Clubs, Two of Hearts,)),
    ("cards!(Ten of Clubs, Two of Diamonds)", &[35,2], &cards!(Ten of Clubs, Two of Diamonds)),
    ("cards!(Ten of Clubs, Two of Clubs,)", &[35,3], &cards!(Ten of Clubs, Two of Clubs,)),
    ("cards!(Ten of Clubs, Three of Spades)", &[35,4], &cards!(Ten of Clubs, Three of Spades)),
    ("cards!(Ten of Clubs, Three of Hearts,)", &[35,5], &cards!(Ten of Clubs, Three of Hearts,)),
    ("cards!(Ten of Clubs, Three of Diamonds)", &[35,6], &cards!(Ten of Clubs, Three of Diamonds)),
    ("cards!(Ten of Clubs, Three of Clubs,)", &[35,7], &cards!(Ten of Clubs, Three of Clubs,)),
    ("cards!(Ten of Clubs, Four of Spades)", &[35,8], &cards!(Ten of Clubs, Four of Spades)),
    ("cards!(Ten of Clubs, Four of Hearts,)", &[35,9], &cards!(Ten of Clubs, Four of Hearts,)),
    ("cards!(Ten of Clubs, Four of Diamonds)", &[35,10], &cards!(Ten of Clubs, Four of Diamonds)),
    ("cards!(Ten of Clubs, Four of Clubs,)", &[35,11], &cards!(Ten of Clubs, Four of Clubs,)),
    ("cards!(Ten of Clubs, Five of Spades)", &[35,12], &cards!(Ten of Clubs, Five of Spades)),
    ("cards!(Ten of Clubs, Five of Hearts,)", &[35,13], &cards!(Ten of Clubs, Five of Hearts,)),
    ("cards!(Ten of Clubs, Five of Diamonds)", &[35,14], &cards!(Ten of Clubs, Five of Diamonds)),
    ("cards!(Ten of Clubs, Five of Clubs,)", &[35,15], &cards!(Ten of Clubs, Five of Clubs,)),
    ("cards!(Ten of Clubs, Six of Spades)", &[35,16], &cards!(Ten of Clubs, Six of Spades)),
    ("cards!(Ten of Clubs, Six of Hearts,)", &[35,17], &cards!(Ten of Clubs, Six of Hearts,)),
    ("cards!(Ten of Clubs, Six of Diamonds)", &[35,18], &cards!(Ten of Clubs, Six of Diamonds)),
    ("cards!(Ten of Clubs, Six of Clubs,)", &[35,19], &cards!(Ten of Clubs, Six of Clubs,)),
    ("cards!(Ten of Clubs, Seven of Spades)", &[35,20], &cards!(Ten of Clubs, Seven of Spades)),
    ("cards!(Ten of Clubs, Seven of Hearts,)", &[35,21], &cards!(Ten of Clubs, Seven of Hearts,)),
    ("cards!(Ten of Clubs, Seven of Diamonds)", &[35,22], &cards!(Ten of Clubs, Seven of Diamonds)),
    ("cards!(Ten of Clubs, Seven of Clubs,)", &[35,23], &cards!(Ten of Clubs, Seven of Clubs,)),
    ("cards!(Ten of Clubs, Eight of Spades)", &[35,24], &cards!(Ten of Clubs, Eight of Spades)),
    ("cards!(Ten of Clubs, Eight of Hearts,)", &[35,25], &cards!(Ten of Clubs, Eight of Hearts,)),
    ("cards!(Ten of Clubs, Eight of Diamonds)", &[35,26], &cards!(Ten of Clubs, Eight of Diamonds)),
    ("cards!(Ten of Clubs, Eight of Clubs,)", &[35,27], &cards!(Ten of Clubs, Eight of Clubs,)),
    ("cards!(Ten of Clubs, Nine of Spades)", &[35,28], &cards!(Ten of Clubs, Nine of Spades)),
    ("cards!(Ten of Clubs, Nine of Hearts,)", &[35,29], &cards!(Ten of Clubs, Nine of Hearts,)),
    ("cards!(Ten of Clubs, Nine of Diamonds)", &[35,30], &cards!(Ten of Clubs, Nine of Diamonds)),
    ("cards!(Ten of Clubs, Nine of Clubs,)", &[35,31], &cards!(Ten of Clubs, Nine of Clubs,)),
    ("cards!(Ten of Clubs, Ten of Spades)", &[35,32], &cards!(Ten of Clubs, Ten of Spades)),
    ("cards!(Ten of Clubs, Ten of Hearts,)", &[35,33], &cards!(Ten of Clubs, Ten of Hearts,)),
    ("cards!(Ten of Clubs, Ten of Diamonds)", &[35,34], &cards!(Ten of Clubs, Ten of Diamonds)),
    ("cards!(Ten of Clubs, Ten of Clubs,)", &[35,35], &cards!(Ten of Clubs, Ten of Clubs,)),
    ("cards!(Ten of Clubs, Jack of Spades)", &[35,36], &cards!(Ten of Clubs, Jack of Spades)),
    ("cards!(Ten of Clubs, Jack of Hearts,)", &[35,37], &cards!(Ten of Clubs, Jack of Hearts,)),
    ("cards!(Ten of Clubs, Jack of Diamonds)", &[35,38], &cards!(Ten of Clubs, Jack of Diamonds)),
    ("cards!(Ten of Clubs, Jack of Clubs,)", &[35,39], &cards!(Ten of Clubs, Jack of Clubs,)),
    ("cards!(Ten of Clubs, Queen of Spades)", &[35,40], &cards!(Ten of Clubs, Queen of Spades)),
    ("cards!(Ten of Clubs, Queen of Hearts,)", &[35,41], &cards!(Ten of Clubs, Queen of Hearts,)),
    ("cards!(Ten of Clubs, Queen of Diamonds)", &[35,42], &cards!(Ten of Clubs, Queen of Diamonds)),
    ("cards!(Ten of Clubs, Queen of Clubs,)", &[35,43], &cards!(Ten of Clubs, Queen of Clubs,)),
    ("cards!(Ten of Clubs, King of Spades)", &[35,44], &cards!(Ten of Clubs, King of Spades)),
    ("cards!(Ten of Clubs, King of Hearts,)", &[35,45], &cards!(Ten of Clubs, King of Hearts,)),
    ("cards!(Ten of Clubs, King of Diamonds)", &[35,46], &cards!(Ten of Clubs, King of Diamonds)),
    ("cards!(Ten of Clubs, King of Clubs,)", &[35,47], &cards!(Ten of Clubs, King of Clubs,)),
    ("cards!(Ten of Clubs, Ace of Spades)", &[35,48], &cards!(Ten of Clubs, Ace of Spades)),
    ("cards!(Ten of Clubs, Ace of Hearts,)", &[35,49], &cards!(Ten of Clubs, Ace of Hearts,)),
    ("cards!(Ten of Clubs, Ace of Diamonds)", &[35,50], &cards!(Ten of Clubs, Ace of Diamonds)),
    ("cards!(Ten of Clubs, Ace of Clubs,)", &[35,51], &cards!(Ten of Clubs, Ace of Clubs,)),
    ("cards!(Jack of Spades, Two of Spades,)", &[36,0], &cards!(Jack of Spades, Two of Spades,)),
    ("cards!(Jack of Spades, Two of Hearts)", &[36,1], &cards!(Jack of Spades, Two of Hearts)),
    ("cards!(Jack of Spades, Two of Diamonds,)", &[36,2], &cards!(Jack of Spades, Two of Diamonds,)),
    ("cards!(Jack of Spades, Two of Clubs)", &[36,3], &cards!(Jack of Spades, Two of Clubs)),
    ("cards!(Jack of Spades, Three of Spades,)", &[36,4], &cards!(Jack of Spades, Three of Spades,)),
    ("cards!(Jack of Spades, Three of Hearts)", &[36,5], &cards!(Jack of Spades, Three of Hearts)),
    ("cards!(Jack of Spades, Three of Diamonds,)", &[36,6], &cards!(Jack of Spades, Three of Diamonds,)),
    ("cards!(Jack of Spades, Three of Clubs)", &[36,7], &cards!(Jack of Spades, Three of Clubs)),
    ("cards!(Jack of Spades, Four of Spades,)", &[36,8], &cards!(Jack of Spades, Four of Spades,)),
    ("cards!(Jack of Spades, Four of Hearts)", &[36,9], &cards!(Jack of Spades, Four of Hearts)),
    ("cards!(Jack of Spades, Four of Diamonds,)", &[36,10], &cards!(Jack of Spades, Four of Diamonds,)),
    ("cards!(Jack of Spades, Four of Clubs)", &[36,11], &cards!(Jack of Spades, Four of Clubs)),
    ("cards!(Jack of Spades, Five of Spades,)", &[36,12], &cards!(Jack of Spades, Five of Spades,)),
    ("cards!(Jack of Spades, Five of Hearts)", &[36,13], &cards!(Jack of Spades, Five of Hearts)),
    ("cards!(Jack of Spades, Five of Diamonds,)", &[36,14], &cards!(Jack of Spades, Five of Diamonds,)),
    ("cards!(Jack of Spades, Five of Clubs)", &[36,15], &cards!(Jack of Spades, Five of Clubs)),
    ("cards!(Jack of Spades, Six of Spades,)", &[36,16], &cards!(Jack of Spades, Six of Spades,)),
    ("cards!(Jack of Spades, Six of Hearts)", &[36,17], &cards!(Jack of Spades, Six of Hearts)),
    ("cards!(Jack of Spades, Six of Diamonds,)", &[36,18], &cards!(Jack of Spades, Six of Diamonds,)),
    ("cards!(Jack of Spades, Six of Clubs)", &[36,19], &cards!(Jack of Spades, Six of Clubs)),
    ("cards!(Jack of Spades, Seven of Spades,)", &[36,20], &cards!(Jack of Spades, Seven of Spades,)),
    ("cards!(Jack of Spades, Seven of Hearts)", &[36,21], &cards!(Jack of Spades, Seven of Hearts)),
    ("cards!(Jack of Spades, Seven of Diamonds,)", &[36,22], &cards!(Jack of Spades, Seven of Diamonds,)),
    ("cards!(Jack of Spades, Seven of Clubs)", &[36,23], &cards!(Jack of Spades, Seven of Clubs)),
    ("cards!(Jack of Spades, Eight of Spades,)", &[36,24], &cards!(Jack of Spades, Eight of Spades,)),
    ("cards!(Jack of Spades, Eight of Hearts)", &[36,25], &cards!(Jack of Spades, Eight of Hearts)),
    ("cards!(Jack of Spades, Eight of Diamonds,)", &[36,26], &cards!(Jack of Spades, Eight of Diamonds,)),
    ("cards!(Jack of Spades, Eight of Clubs)", &[36,27], &cards!(Jack of Spades, Eight of Clubs)),
    ("cards!(Jack of Spades, Nine of Spades,)", &[36,28], &cards!(Jack of Spades, Nine of Spades,)),
    ("cards!(Jack of Spades, Nine of Hearts)", &[36,29], &cards!(Jack of Spades, Nine of Hearts)),
    ("cards!(Jack of Spades, Nine of Diamonds,)", &[36,30], &cards!(Jack of Spades, Nine of Diamonds,)),
    ("cards!(Jack of Spades, Nine of Clubs)", &[36,31], &cards!(Jack of Spades, Nine of Clubs)),
    ("cards!(Jack of Spades, Ten of Spades,)", &[36,32], &cards!(Jack of Spades, Ten of Spades,)),
    ("cards!(Jack of Spades, Ten of Hearts)", &[36,33], &cards!(Jack of Spades, Ten of Hearts)),
    ("cards!(Jack of Spades, Ten of Diamonds,)", &[36,34], &cards!(Jack of Spades, Ten of Diamonds,)),
    ("cards!(Jack of Spades, Ten of Clubs)", &[36,35], &cards!(Jack of Spades, Ten of Clubs)),
    ("cards!(Jack of Spades, Jack of Spades,)", &[36,36], &cards!(Jack of Spades, Jack of Spades,)),
    ("cards!(Jack of Spades, Jack of Hearts)", &[36,37], &cards!(Jack of Spades, Jack of Hearts)),
    ("cards!(Jack of Spades, Jack of Diamonds,)", &[36,38], &cards!(Jack of Spades, Jack of Diamonds,)),
    ("cards!(Jack of Spades, Jack of Clubs)", &[36,39], &cards!(Jack of Spades, Jack of Clubs)),
    ("cards!(Jack of Spades, Queen of Spades,)", &[36,40], &cards!(Jack of Spades, Queen of Spades,)),
    ("cards!(Jack of Spades, Queen of Hearts)", &[36,41], &cards!(Jack of Spades, Queen of Hearts)),
    ("cards!(Jack of Spades, Queen of Diamonds,)", &[36,42], &cards!(Jack of Spades, Queen of Diamonds,)),
    ("cards!(Jack of Spades, Queen of Clubs)", &[36,43], &cards!(Jack of Spades, Queen of Clubs)),
    ("cards!(Jack of Spades, King of Spades,)", &[36,44], &cards!(Jack of Spades, King of Spades,)),
    ("cards!(Jack of Spades, King of Hearts)", &[36,45], &cards!(Jack of Spades, King of Hearts)),
    ("cards!(Jack of Spades, King of Diamonds,)", &[36,46], &cards!(Jack of Spades, King of Diamonds,)),
    ("cards!(Jack of Spades, King of Clubs)", &[36,47], &cards!(Jack of Spades, King of Clubs)),
    ("cards!(Jack of Spades, Ace of Spades,)", &[36,48], &cards!(Jack of Spades, Ace of Spades,)),
    ("cards!(Jack of Spades, Ace of Hearts)", &[36,49], &cards!(Jack of Spades, Ace of Hearts)),
    ("cards!(Jack of Spades, Ace of Diamonds,)", &[36,50], &cards!(Jack of Spades, Ace of Diamonds,)),
    ("cards!(Jack of Spades, Ace of Clubs)", &[36,51], &cards!(Jack of Spades, Ace of Clubs)),
    ("cards!(Jack of Hearts, Two of Spades)", &[37,0], &cards!(Jack of Hearts, Two of Spades)),
    ("cards!(Jack of Hearts, Two of Hearts,)", &[37,1], &cards!(Jack of Hearts, Two of Hearts,)),
    ("cards!(Jack of Hearts, Two of Diamonds)", &[37,2], &cards!(Jack of Hearts, Two of Diamonds)),
    ("cards!(Jack of Hearts, Two of Clubs,)", &[37,3], &cards!(Jack of Hearts, Two of Clubs,)),
    ("cards!(Jack of Hearts, Three of Spades)", &[37,4], &cards!(Jack of Hearts, Three of Spades)),
    ("cards!(Jack of Hearts, Three of Hearts,)", &[37,5], &cards!(Jack of Hearts, Three of Hearts,)),
    ("cards!(Jack of Hearts, Three of Diamonds)", &[37,6], &cards!(Jack of Hearts, Three of Diamonds)),
    ("cards!(Jack of Hearts, Three of Clubs,)", &[37,7], &cards!(Jack of Hearts, Three of Clubs,)),
    ("cards!(Jack of Hearts, Four of Spades)", &[37,8], &cards!(Jack of Hearts, Four of Spades)),
    ("cards!(Jack of Hearts, Four of Hearts,)", &[37,9], &cards!(Jack of Hearts, Four of Hearts,)),
    ("cards!(Jack of Hearts, Four of Diamonds)", &[37,10], &cards!(Jack of Hearts, Four of Diamonds)),
    ("cards!(Jack of Hearts, Four of Clubs,)", &[37,11], &cards!(Jack of Hearts, Four of Clubs,)),
    ("cards!(Jack of Hearts, Five of Spades)", &[37,12], &cards!(Jack of Hearts, Five of Spades)),
    ("cards!(Jack of Hearts, Five of Hearts,)", &[37,13], &cards!(Jack of Hearts, Five of Hearts,)),
    ("cards!(Jack of Hearts, Five of Diamonds)", &[37,14], &cards!(Jack of Hearts, Five of Diamonds)),
    ("cards!(Jack of Hearts, Five of Clubs,)", &[37,15], &cards!(Jack of Hearts, Five of Clubs,)),
    ("cards!(Jack of Hearts, Six of Spades)", &[37,16], &cards!(Jack of Hearts, Six of Spades)),
    ("cards!(Jack of Hearts, Six of Hearts,)", &[37,17], &cards!(Jack of Hearts, Six of Hearts,)),
    ("cards!(Jack of Hearts, Six of Diamonds)", &[37,18], &cards!(Jack of Hearts, Six of Diamonds)),
    ("cards!(Jack of Hearts, Six of Clubs,)", &[37,19], &cards!(Jack of Hearts, Six of Clubs,)),
    ("cards!(Jack of Hearts, Seven of Spades)", &[37,20], &cards!(Jack of Hearts, Seven of Spades)),
    ("cards!(Jack of Hearts, Seven of Hearts,)", &[37,21], &cards!(Jack of Hearts, Seven of Hearts,)),
    ("cards!(Jack of Hearts, Seven of Diamonds)", &[37,22], &cards!(Jack of Hearts, Seven of Diamonds)),
    ("cards!(Jack of Hearts, Seven of Clubs,)", &[37,23], &cards!(Jack of Hearts, Seven of Clubs,)),
    ("cards!(Jack of Hearts, Eight of Spades)", &[37,24], &cards!(Jack of Hearts, Eight of Spades)),
    ("cards!(Jack of Hearts, Eight of Hearts,)", &[37,25], &cards!(Jack of Hearts, Eight of Hearts,)),
    ("cards!(Jack of Hearts, Eight of Diamonds)", &[37,26], &cards!(Jack of Hearts, Eight of Diamonds)),
    ("cards!(Jack of Hearts, Eight of Clubs,)", &[37,27], &cards!(Jack of Hearts, Eight of Clubs,)),
    ("cards!(Jack of Hearts, Nine of Spades)", &[37,28], &cards!(Jack of Hearts, Nine of Spades)),
    ("cards!(Jack of Hearts, Nine of Hearts,)", &[37,29], &cards!(Jack of Hearts, Nine of Hearts,)),
    ("cards!(Jack of Hearts, Nine of Diamonds)", &[37,30], &cards!(Jack of Hearts, Nine of Diamonds)),
    ("cards!(Jack of Hearts, Nine of Clubs,)", &[37,31], &cards!(Jack of Hearts, Nine of Clubs,)),
    ("cards!(Jack of Hearts, Ten of Spades)", &[37,32], &cards!(Jack of Hearts, Ten of Spades)),
    ("cards!(Jack of Hearts, Ten of Hearts,)", &[37,33], &cards!(Jack of Hearts, Ten of Hearts,)),
    ("cards!(Jack of Hearts, Ten of Diamonds)", &[37,34], &cards!(Jack of Hearts, Ten of Diamonds)),
    ("cards!(Jack of Hearts, Ten of Clubs,)", &[37,35], &cards!(Jack of Hearts, Ten of Clubs,)),
    ("cards!(Jack of Hearts, Jack of Spades)", &[37,36], &cards!(Jack of Hearts, Jack of Spades)),
    ("cards!(Jack of Hearts, Jack of Hearts,)", &[37,37], &cards!(Jack of Hearts, Jack of Hearts,)),
    ("cards!(Jack of Hearts, Jack of Diamonds)", &[37,38], &cards!(Jack of Hearts, Jack of Diamonds)),
    ("cards!(Jack of Hearts, Jack of Clubs,)", &[37,39], &cards!(Jack of Hearts, Jack of Clubs,)),
    ("cards!(Jack of Hearts, Queen of Spades)", &[37,40], &cards!(Jack of Hearts, Queen of Spades)),
    ("cards!(Jack of Hearts, Queen of Hearts,)", &[37,41], &cards!(Jack of Hearts, Queen of Hearts,)),
    ("cards!(Jack of Hearts, Queen of Diamonds)", &[37,42], &cards!(Jack of Hearts, Queen of Diamonds)),
    ("cards!(Jack of Hearts, Queen of Clubs,)", &[37,43], &cards!(Jack of Hearts, Queen of Clubs,)),
    ("cards!(Jack of Hearts, King of Spades)", &[37,44], &cards!(Jack of Hearts, King of Spades)),
    ("cards!(Jack of Hearts, King of Hearts,)", &[37,45], &cards!(Jack of Hearts, King of Hearts,)),
    ("cards!(Jack of Hearts, King of Diamonds)", &[37,46], &cards!(Jack of Hearts, King of Diamonds)),
    ("cards!(Jack of Hearts, King of Clubs,)", &[37,47], &cards!(Jack of Hearts, King of Clubs,)),
    ("cards!(Jack of Hearts, Ace of Spades)", &[37,48], &cards!(Jack of Hearts, Ace of Spades)),
    ("cards!(Jack of Hearts, Ace of Hearts,)", &[37,49], &cards!(Jack of Hearts, Ace of Hearts,)),
    ("cards!(Jack of Hearts, Ace of Diamonds)", &[37,50], &cards!(Jack of Hearts, Ace of Diamonds)),
    ("cards!(Jack of Hearts, Ace of Clubs,)", &[37,51], &cards!(Jack of Hearts, Ace of Clubs,)),
    ("cards!(Jack of Diamonds, Two of Spades,)", &[38,0], &cards!(Jack of Diamonds, Two of Spades,)),
    ("cards!(Jack of Diamonds, Two of Hearts)", &[38,1], &cards!(Jack of Diamonds, Two of Hearts)),
    ("cards!(Jack of Diamonds, Two of Diamonds,)", &[38,2], &cards!(Jack of Diamonds, Two of Diamonds,)),
    ("cards!(Jack of Diamonds, Two of Clubs)", &[38,3], &cards!(Jack of Diamonds, Two of Clubs)),
    ("cards!(Jack of Diamonds, Three of Spades,)", &[38,4], &cards!(Jack of Diamonds, Three of Spades,)),
    ("cards!(Jack of Diamonds, Three of Hearts)", &[38,5], &cards!(Jack of Diamonds, Three of Hearts)),
    ("cards!(Jack of Diamonds, Three of Diamonds,)", &[38,6], &cards!(Jack of Diamonds, Three of Diamonds,)),
    ("cards!(Jack of Diamonds, Three of Clubs)", &[38,7], &cards!(Jack of Diamonds, Three of Clubs)),
    ("cards!(Jack of Diamonds, Four of Spades,)", &[38,8], &cards!(Jack of Diamonds, Four of Spades,)),
    ("cards!(Jack of Diamonds, Four of Hearts)", &[38,9], &cards!(Jack of Diamonds, Four of Hearts)),
    ("cards!(Jack of Diamonds, Four of Diamonds,)", &[38,10], &cards!(Jack of Diamonds, Four of Diamonds,)),
    ("cards!(Jack of Diamonds, Four of Clubs)", &[38,11], &cards!(Jack of Diamonds, Four of Clubs)),
    ("cards!(Jack of Diamonds, Five of Spades,)", &[38,12], &cards!(Jack of Diamonds, Five of Spades,)),
    ("cards!(Jack of Diamonds, Five of Hearts)", &[38,13], &cards!(Jack of Diamonds, Five of Hearts)),
    ("cards!(Jack of Diamonds, Five of Diamonds,)", &[38,14], &cards!(Jack of Diamonds, Five of Diamonds,)),
    ("cards!(Jack of Diamonds, Five of Clubs)", &[38,15], &cards!(Jack of Diamonds, Five of Clubs)),
    ("cards!(Jack of Diamonds, Six of Spades,)", &[38,16], &cards!(Jack of Diamonds, Six of Spades,)),
    ("cards!(Jack of Diamonds, Six of Hearts)", &[38,17], &cards!(Jack of Diamonds, Six of Hearts)),
    ("cards!(Jack of Diamonds, Six of Diamonds,)", &[38,18], &cards!(Jack of Diamonds, Six of Diamonds,)),
    ("cards!(Jack of Diamonds, Six of Clubs)", &[38,19], &cards!(Jack of Diamonds, Six of Clubs)),
    ("cards!(Jack of Diamonds, Seven of Spades,)", &[38,20], &cards!(Jack of Diamonds, Seven of Spades,)),
    ("cards!(Jack of Diamonds, Seven of Hearts)", &[38,21], &cards!(Jack of Diamonds, Seven of Hearts)),
    ("cards!(Jack of Diamonds, Seven of Diamonds,)", &[38,22], &cards!(Jack of Diamonds, Seven of Diamonds,)),
    ("cards!(Jack of Diamonds, Seven of Clubs)", &[38,23], &cards!(Jack of Diamonds, Seven of Clubs)),
    ("cards!(Jack of Diamonds, Eight of Spades,)", &[38,24], &cards!(Jack of Diamonds, Eight of Spades,)),
    ("cards!(Jack of Diamonds, Eight of Hearts)", &[38,25], &cards!(Jack of Diamonds, Eight of Hearts)),
    ("cards!(Jack of Diamonds, Eight of Diamonds,)", &[38,26], &cards!(Jack of Diamonds, Eight of Diamonds,)),
    ("cards!(Jack of Diamonds, Eight of Clubs)", &[38,27], &cards!(Jack of Diamonds, Eight of Clubs)),
    ("cards!(Jack of Diamonds, Nine of Spades,)", &[38,28], &cards!(Jack of Diamonds, Nine of Spades,)),
    ("cards!(Jack of Diamonds, Nine of Hearts)", &[38,29], &cards!(Jack of Diamonds, Nine of Hearts)),
    ("cards!(Jack of Diamonds, Nine of Diamonds,)", &[38,30], &cards!(Jack of Diamonds, Nine of Diamonds,)),
    ("cards!(Jack of Diamonds, Nine of Clubs)", &[38,31], &cards!(Jack of Diamonds, Nine of Clubs)),
    ("cards!(Jack of Diamonds, Ten of Spades,)", &[38,32], &cards!(Jack of Diamonds, Ten of Spades,)),
    ("cards!(Jack of Diamonds, Ten of Hearts)", &[38,33], &cards!(Jack of Diamonds, Ten of Hearts)),
    ("cards!(Jack of Diamonds, Ten of Diamonds,)", &[38,34], &cards!(Jack of Diamonds, Ten of Diamonds,)),
    ("cards!(Jack of Diamonds, Ten of Clubs)", &[38,35], &cards!(Jack of Diamonds, Ten of Clubs)),
    ("cards!(Jack of Diamonds, Jack of Spades,)", &[38,36], &cards!(Jack of Diamonds, Jack of Spades,)),
    ("cards!(Jack of Diamonds, Jack of Hearts)", &[38,37], &cards!(Jack of Diamonds, Jack of Hearts)),
    ("cards!(Jack of Diamonds, Jack of Diamonds,)", &[38,38], &cards!(Jack of Diamonds, Jack of Diamonds,)),
    ("cards!(Jack of Diamonds, Jack of Clubs)", &[38,39], &cards!(Jack of Diamonds, Jack of Clubs)),
    ("cards!(Jack of Diamonds, Queen of Spades,)", &[38,40], &cards!(Jack of Diamonds, Queen of Spades,)),
    ("cards!(Jack of Diamonds, Queen of Hearts)", &[38,41], &cards!(Jack of Diamonds, Queen of Hearts)),
    ("cards!(Jack of Diamonds, Queen of Diamonds,)", &[38,42], &cards!(Jack of Diamonds, Queen of Diamonds,)),
    ("cards!(Jack of Diamonds, Queen of Clubs)", &[38,43], &cards!(Jack of Diamonds, Queen of Clubs)),
    ("cards!(Jack of Diamonds, King of Spades,)", &[38,44], &cards!(Jack of Diamonds, King of Spades,)),
    ("cards!(Jack of Diamonds, King of Hearts)", &[38,45], &cards!(Jack of Diamonds, King of Hearts)),
    ("cards!(Jack of Diamonds, King of Diamonds,)", &[38,46], &cards!(Jack of Diamonds, King of Diamonds,)),
    ("cards!(Jack of Diamonds, King of Clubs)", &[38,47], &cards!(Jack of Diamonds, King of Clubs)),
    ("cards!(Jack of Diamonds, Ace of Spades,)", &[38,48], &cards!(Jack of Diamonds, Ace of Spades,)),
    ("cards!(Jack of Diamonds, Ace of Hearts)", &[38,49], &cards!(Jack of Diamonds, Ace of Hearts)),
    ("cards!(Jack of Diamonds, Ace of Diamonds,)", &[38,50], &cards!(Jack of Diamonds, Ace of Diamonds,)),
    ("cards!(Jack of Diamonds, Ace of Clubs)", &[38,51], &cards!(Jack of Diamonds, Ace of Clubs)),
    ("cards!(Jack of Clubs, Two of Spades)", &[39,0], &cards!(Jack of Clubs, Two of Spades)),
    ("cards!(Jack of Clubs, Two of Hearts,)", &[39,1], &cards!(Jack of Clubs, Two of Hearts,)),
    ("cards!(Jack of Clubs, Two of Diamonds)", &[39,2], &cards!(Jack of Clubs, Two of Diamonds)),
    ("cards!(Jack of Clubs, Two of Clubs,)", &[39,3], &cards!(Jack of Clubs, Two of Clubs,)),
    ("cards!(Jack of Clubs, Three of Spades)", &[39,4], &cards!(Jack of Clubs, Three of Spades)),
    ("cards!(Jack of Clubs, Three of Hearts,)", &[39,5], &cards!(Jack of Clubs, Three of Hearts,)),
    ("cards!(Jack of Clubs, Three of Diamonds)", &[39,6], &cards!(Jack of Clubs, Three of Diamonds)),
    ("cards!(Jack of Clubs, Three of Clubs,)", &[39,7], &cards!(Jack of Clubs, Three of Clubs,)),
    ("cards!(Jack of Clubs, Four of Spades)", &[39,8], &cards!(Jack of Clubs, Four of Spades)),
    ("cards!(Jack of Clubs, Four of Hearts,)", &[39,9], &cards!(Jack of Clubs, Four of Hearts,)),
    ("cards!(Jack of Clubs, Four of Diamonds)", &[39,10], &cards!(Jack of Clubs, Four of Diamonds)),
    ("cards!(Jack of Clubs, Four of Clubs,)", &[39,11], &cards!(Jack of Clubs, Four of Clubs,)),
    ("cards!(Jack of Clubs, Five of Spades)", &[39,12], &cards!(Jack of Clubs, Five of Spades)),
    ("cards!(Jack of Clubs, Five of Hearts,)", &[39,13], &cards!(Jack of Clubs, Five of Hearts,)),
    ("cards!(Jack of Clubs, Five of Diamonds)", &[39,14], &cards!(Jack of Clubs, Five of Diamonds)),
    ("cards!(Jack of Clubs, Five of Clubs,)", &[39,15], &cards!(Jack of Clubs, Five of Clubs,)),
    ("cards!(Jack of Clubs, Six of Spades)", &[39,16], &cards!(Jack of Clubs, Six of Spades)),
    ("cards!(Jack of Clubs, Six of Hearts,)", &[39,17], &cards!(Jack of Clubs, Six of Hearts,)),
    ("cards!(Jack of Clubs, Six of Diamonds)", &[39,18], &cards!(Jack of Clubs, Six of Diamonds)),
    ("cards!(Jack of Clubs, Six of Clubs,)", &[39,19], &cards!(Jack of Clubs, Six of Clubs,)),
    ("cards!(Jack of Clubs, Seven of Spades)", &[39,20], &cards!(Jack of Clubs, Seven of Spades)),
    ("cards!(Jack of Clubs, Seven of Hearts,)", &[39,21], &cards!(Jack of Clubs, Seven of Hearts,)),
    ("cards!(Jack of Clubs, Seven of Diamonds)", &[39,22], &cards!(Jack of Clubs, Seven of Diamonds)),
    ("cards!(Jack of Clubs, Seven of Clubs,)", &[39,23], &cards!(Jack of Clubs, Seven of Clubs,)),
    ("cards!(Jack of Clubs, Eight of Spades)", &[39,24], &cards!(Jack of Clubs, Eight of Spades)),
    ("cards!(Jack of Clubs, Eight of Hearts,)", &[39,25], &cards!(Jack of Clubs, Eight of Hearts,)),
    ("cards!(Jack of Clubs, Eight of Diamonds)", &[39,26], &cards!(Jack of Clubs, Eight of Diamonds)),
    ("cards!(Jack of Clubs, Eight of Clubs,)", &[39,27], &cards!(Jack of Clubs, Eight of Clubs,)),
    ("cards!(Jack of Clubs, Nine of Spades)", &[39,28], &cards!(Jack of Clubs, Nine of Spades)),
    ("cards!(Jack of Clubs, Nine of Hearts,)", &[39,29], &cards!(Jack of Clubs, Nine of Hearts,)),
    ("cards!(Jack of Clubs, Nine of Diamonds)", &[39,30], &cards!(Jack of Clubs, Nine of Diamonds)),
    ("cards!(Jack of Clubs, Nine of Clubs,)", &[39,31], &cards!(Jack of Clubs, Nine of Clubs,)),
    ("cards!(Jack of Clubs, Ten of Spades)", &[39,32], &cards!(Jack of Clubs, Ten of Spades)),
    ("cards!(Jack of Clubs, Ten of Hearts,)", &[39,33], &cards!(Jack of Clubs, Ten of Hearts,)),
    ("cards!(Jack of Clubs, Ten of Diamonds)", &[39,34], &cards!(Jack of Clubs, Ten of Diamonds)),
    ("cards!(Jack of Clubs, Ten of Clubs,)", &[39,35], &cards!(Jack of Clubs, Ten of Clubs,)),
    ("cards!(Jack of Clubs, Jack of Spades)", &[39,36], &cards!(Jack of Clubs, Jack of Spades)),
    ("cards!(Jack of Clubs, Jack of Hearts,)", &[39,37], &cards!(Jack of Clubs, Jack of Hearts,)),
    ("cards!(Jack of Clubs, Jack of Diamonds)", &[39,38], &cards!(Jack of Clubs, Jack of Diamonds)),
    ("cards!(Jack of Clubs, Jack of Clubs,)", &[39,39], &cards!(Jack of Clubs, Jack of Clubs,)),
    ("cards!(Jack of Clubs, Queen of Spades)", &[39,40], &cards!(Jack of Clubs, Queen of Spades)),
    ("cards!(Jack of Clubs, Queen of Hearts,)", &[39,41], &cards!(Jack of Clubs, Queen of Hearts,)),
    ("cards!(Jack of Clubs, Queen of Diamonds)", &[39,42], &cards!(Jack of Clubs, Queen of Diamonds)),
    ("cards!(Jack of Clubs, Queen of Clubs,)", &[39,43], &cards!(Jack of Clubs, Queen of Clubs,)),
    ("cards!(Jack of Clubs, King of Spades)", &[39,44], &cards!(Jack of Clubs, King of Spades)),
    ("cards!(Jack of Clubs, King of Hearts,)", &[39,45], &cards!(Jack of Clubs, King of Hearts,)),
    ("cards!(Jack of Clubs, King of Diamonds)", &[39,46], &cards!(Jack of Clubs, King of Diamonds)),
    ("cards!(Jack of Clubs, King of Clubs,)", &[39,47], &cards!(Jack of Clubs, King of Clubs,)),
    ("cards!(Jack of Clubs, Ace of Spades)", &[39,48], &cards!(Jack of Clubs, Ace of Spades)),
    ("cards!(Jack of Clubs, Ace of Hearts,)", &[39,49], &cards!(Jack of Clubs, Ace of Hearts,)),
    ("cards!(Jack of Clubs, Ace of Diamonds)", &[39,50], &cards!(Jack of Clubs, Ace of Diamonds)),
    ("cards!(Jack of Clubs, Ace of Clubs,)", &[39,51], &cards!(Jack of Clubs, Ace of Clubs,)),
    ("cards!(Queen of Spades, Two of Spades,)", &[40,0], &cards!(Queen of Spades, Two of Spades,)),
    ("cards!(Queen of Spades, Two of Hearts)", &[40,1], &cards!(Queen of Spades, Two of Hearts)),
    ("cards!(Queen of Spades, Two of Diamonds,)", &[40,2], &cards!(Queen of Spades, Two of Diamonds,)),
    ("cards!(Queen of Spades, Two of Clubs)", &[40,3], &cards!(Queen of Spades, Two of Clubs)),
    ("cards!(Queen of Spades, Three of Spades,)", &[40,4], &cards!(Queen of Spades, Three of Spades,)),
    ("cards!(Queen of Spades, Three of Hearts)", &[40,5], &cards!(Queen of Spades, Three of Hearts)),
    ("cards!(Queen of Spades, Three of Diamonds,)", &[40,6], &cards!(Queen of Spades, Three of Diamonds,)),
    ("cards!(Queen of Spades, Three of Clubs)", &[40,7], &cards!(Queen of Spades, Three of Clubs)),
    ("cards!(Queen of Spades, Four of Spades,)", &[40,8], &cards!(Queen of Spades, Four of Spades,)),
    ("cards!(Queen of Spades, Four of Hearts)", &[40,9], &cards!(Queen of Spades, Four of Hearts)),
    ("cards!(Queen of Spades, Four of Diamonds,)", &[40,10], &cards!(Queen of Spades, Four of Diamonds,)),
    ("cards!(Queen of Spades, Four of Clubs)", &[40,11], &cards!(Queen of Spades, Four of Clubs)),
    ("cards!(Queen of Spades, Five of Spades,)", &[40,12], &cards!(Queen of Spades, Five of Spades,)),
    ("cards!(Queen of Spades, Five of Hearts)", &[40,13], &cards!(Queen of Spades, Five of Hearts)),
    ("cards!(Queen of Spades, Five of Diamonds,)", &[40,14], &cards!(Queen of Spades, Five of Diamonds,)),
    ("cards!(Queen of Spades, Five of Clubs)", &[40,15], &cards!(Queen of Spades, Five of Clubs)),
    ("cards!(Queen of Spades, Six of Spades,)", &[40,16], &cards!(Queen of Spades, Six of Spades,)),
    ("cards!(Queen of Spades, Six of Hearts)", &[40,17], &cards!(Queen of Spades, Six of Hearts)),
    ("cards!(Queen of Spades, Six of Diamonds,)", &[40,18], &cards!(Queen of Spades, Six of Diamonds,)),
    ("cards!(Queen of Spades, Six of Clubs)", &[40,19], &cards!(Queen of Spades, Six of Clubs)),
    ("cards!(Queen of Spades, Seven of Spades,)", &[40,20], &cards!(Queen of Spades, Seven of Spades,)),
    ("cards!(Queen of Spades, Seven of Hearts)", &[40,21], &cards!(Queen of Spades, Seven of Hearts)),
    ("cards!(Queen of Spades, Seven of Diamonds,)", &[40,22], &cards!(Queen of Spades, Seven of Diamonds,)),
    ("cards!(Queen of Spades, Seven of Clubs)", &[40,23], &cards!(Queen of Spades, Seven of Clubs)),
    ("cards!(Queen of Spades, Eight of Spades,)", &[40,24], &cards!(Queen of Spades, Eight of Spades,)),
    ("cards!(Queen of Spades, Eight of Hearts)", &[40,25], &cards!(Queen of Spades, Eight of Hearts)),
    ("cards!(Queen of Spades, Eight of Diamonds,)", &[40,26], &cards!(Queen of Spades, Eight of Diamonds,)),
    ("cards!(Queen of Spades, Eight of Clubs)", &[40,27], &cards!(Queen of Spades, Eight of Clubs)),
    ("cards!(Queen of Spades, Nine of Spades,)", &[40,28], &cards!(Queen of Spades, Nine of Spades,)),
    ("cards!(Queen of Spades, Nine of Hearts)", &[40,29], &cards!(Queen of Spades, Nine of Hearts)),
    ("cards!(Queen of Spades, Nine of Diamonds,)", &[40,30], &cards!(Queen of Spades, Nine of Diamonds,)),
    ("cards!(Queen of Spades, Nine of Clubs)", &[40,31], &cards!(Queen of Spades, Nine of Clubs)),
    ("cards!(Queen of Spades, Ten of Spades,)", &[40,32], &cards!(Queen of Spades, Ten of Spades,)),
    ("cards!(Queen of Spades, Ten of Hearts)", &[40,33], &cards!(Queen of Spades, Ten of Hearts)),
    ("cards!(Queen of Spades, Ten of Diamonds,)", &[40,34], &cards!(Queen of Spades, Ten of Diamonds,)),
    ("cards!(Queen of Spades, Ten of Clubs)", &[40,35], &cards!(Queen of Spades, Ten of Clubs)),
    ("cards!(Queen of Spades, Jack of Spades,)", &[40,36], &cards!(Queen of Spades, Jack of Spades,)),
    ("cards!(Queen of Spades, Jack of Hearts)", &[40,37], &cards!(Queen of Spades, Jack of Hearts)),
    ("cards!(Queen of Spades, Jack of Diamonds,)", &[40,38], &cards!(Queen of Spades, Jack of Diamonds,)),
    ("cards!(Queen of Spades, Jack of Clubs)", &[40,39], &cards!(Queen of Spades, Jack of Clubs)),
    ("cards!(Queen of Spades, Queen of Spades,)", &[40,40], &cards!(Queen of Spades, Queen of Spades,)),
    ("cards!(Queen of Spades, Queen of Hearts)", &[40,41], &cards!(Queen of Spades, Queen of Hearts)),
    ("cards!(Queen of Spades, Queen of Diamonds,)", &[40,42], &cards!(Queen of Spades, Queen of Diamonds,)),
    ("cards!(Queen of Spades, Queen of Clubs)", &[40,43], &cards!(Queen of Spades, Queen of Clubs)),
    ("cards!(Queen of Spades, King of Spades,)", &[40,44], &cards!(Queen of Spades, King of Spades,)),
    ("cards!(Queen of Spades, King of Hearts)", &[40,45], &cards!(Queen of Spades, King of Hearts)),
    ("cards!(Queen of Spades, King of Diamonds,)", &[40,46], &cards!(Queen of Spades, King of Diamonds,)),
    ("cards!(Queen of Spades, King of Clubs)", &[40,47], &cards!(Queen of Spades, King of Clubs)),
    ("cards!(Queen of Spades, Ace of Spades,)", &[40,48], &cards!(Queen of Spades, Ace of Spades,)),
    ("cards!(Queen of Spades, Ace of Hearts)", &[40,49], &cards!(Queen of Spades, Ace of Hearts)),
    ("cards!(Queen of Spades, Ace of Diamonds,)", &[40,50], &cards!(Queen of Spades, Ace of Diamonds,)),
    ("cards!(Queen of Spades, Ace of Clubs)", &[40,51], &cards!(Queen of Spades, Ace of Clubs)),
    ("cards!(Queen of Hearts, Two of Spades)", &[41,0], &cards!(Queen of Hearts, Two of Spades)),
    ("cards!(Queen of Hearts, Two of Hearts,)", &[41,1], &cards!(Queen of Hearts, Two of Hearts,)),
    ("cards!(Queen of Hearts, Two of Diamonds)", &[41,2], &cards!(Queen of Hearts, Two of Diamonds)),
    ("cards!(Queen of Hearts, Two of Clubs,)", &[41,3], &cards!(Queen of Hearts, Two of Clubs,)),
    ("cards!(Queen of Hearts, Three of Spades)", &[41,4], &cards!(Queen of Hearts, Three of Spades)),
    ("cards!(Queen of Hearts, Three of Hearts,)", &[41,5], &cards!(Queen of Hearts, Three of Hearts,)),
    ("cards!(Queen of Hearts, Three of Diamonds)", &[41,6], &cards!(Queen of Hearts, Three of Diamonds)),
    ("cards!(Queen of Hearts, Three of Clubs,)", &[41,7], &cards!(Queen of Hearts, Three of Clubs,)),
    ("cards!(Queen of Hearts, Four of Spades)", &[41,8], &cards!(Queen of Hearts, Four of Spades)),
    ("cards!(Queen of Hearts, Four of Hearts,)", &[41,9], &cards!(Queen of Hearts, Four of Hearts,)),
    ("cards!(Queen of Hearts, Four of Diamonds)", &[41,10], &cards!(Queen of Hearts, Four of Diamonds)),
    ("cards!(Queen of Hearts, Four of Clubs,)", &[41,11], &cards!(Queen of Hearts, Four of Clubs,)),
    ("cards!(Queen of Hearts, Five of Spades)", &[41,12], &cards!(Queen of Hearts, Five of Spades)),
    ("cards!(Queen of Hearts, Five of Hearts,)", &[41,13], &cards!(Queen of Hearts, Five of Hearts,)),
    ("cards!(Queen of Hearts, Five of Diamonds)", &[41,14], &cards!(Queen of Hearts, Five of Diamonds)),
    ("cards!(Queen of Hearts, Five of Clubs,)", &[41,15], &cards!(Queen of Hearts, Five of Clubs,)),
    ("cards!(Queen of Hearts, Six of Spades)", &[41,16], &cards!(Queen of Hearts, Six of Spades)),
    ("cards!(Queen of Hearts, Six of Hearts,)", &[41,17], &cards!(Queen of Hearts, Six of Hearts,)),
    ("cards!(Queen of Hearts, Six of Diamonds)", &[41,18], &cards!(Queen of Hearts, Six of Diamonds)),
    ("cards!(Queen of Hearts, Six of Clubs,)", &[41,19], &cards!(Queen of Hearts, Six of Clubs,)),
    ("cards!(Queen of Hearts, Seven of Spades)", &[41,20], &cards!(Queen of Hearts, Seven of Spades)),
    ("cards!(Queen of Hearts, Seven of Hearts,)", &[41,21], &cards!(Queen of Hearts, Seven of Hearts,)),
    ("cards!(Queen of Hearts, Seven of Diamonds)", &[41,22], &cards!(Queen of Hearts, Seven of Diamonds)),
    ("cards!(Queen of Hearts, Seven of Clubs,)", &[41,23], &cards!(Queen of Hearts, Seven of Clubs,)),
    ("cards!(Queen of Hearts, Eight of Spades)", &[41,24], &cards!(Queen of Hearts, Eight of Spades)),
    ("cards!(Queen of Hearts, Eight of Hearts,)", &[41,25], &cards!(Queen of Hearts, Eight of Hearts,)),
    ("cards!(Queen of Hearts, Eight of Diamonds)", &[41,26], &cards!(Queen of Hearts, Eight of Diamonds)),
    ("cards!(Queen of Hearts, Eight of Clubs,)", &[41,27], &cards!(Queen of Hearts, Eight of Clubs,)),
    ("cards!(Queen of Hearts, Nine of Spades)", &[41,28], &cards!(Queen of Hearts, Nine of Spades)),
    ("cards!(Queen of Hearts, Nine of Hearts,)", &[41,29], &cards!(Queen of Hearts, Nine of Hearts,)),
    ("cards!(Queen of Hearts, Nine of Diamonds)", &[41,30], &cards!(Queen of Hearts, Nine of Diamonds)),
    ("cards!(Queen of Hearts, Nine of Clubs,)", &[41,31], &cards!(Queen of Hearts, Nine of Clubs,)),
    ("cards!(Queen of Hearts, Ten of Spades)", &[41,32], &cards!(Queen of Hearts, Ten of Spades)),
    ("cards!(Queen of Hearts, Ten of Hearts,)", &[41,33], &cards!(Queen of Hearts, Ten of Hearts,)),
    ("cards!(Queen of Hearts, Ten of Diamonds)", &[41,34], &cards!(Queen of Hearts, Ten of Diamonds)),
    ("cards!(Queen of Hearts, Ten of Clubs,)", &[41,35], &cards!(Queen of Hearts, Ten of Clubs,)),
    ("cards!(Queen of Hearts, Jack of Spades)", &[41,36], &cards!(Queen of Hearts, Jack of Spades)),
    ("cards!(Queen of Hearts, Jack of Hearts,)", &[41,37], &cards!(Queen of Hearts, Jack of Hearts,)),
    ("cards!(Queen of Hearts, Jack of Diamonds)", &[41,38], &cards!(Queen of Hearts, Jack of Diamonds)),
    ("cards!(Queen of Hearts, Jack of Clubs,)", &[41,39], &cards!(Queen of Hearts, Jack of Clubs,)),
    ("cards!(Queen of Hearts, Queen of Spades)", &[41,40], &cards!(Queen of Hearts, Queen of Spades)),
    ("cards!(Queen of Hearts, Queen of Hearts,)", &[41,41], &cards!(Queen of Hearts, Queen of Hearts,)),
    ("cards!(Queen of Hearts, Queen of Diamonds)", &[41,42], &cards!(Queen of Hearts, Queen of Diamonds)),
    ("cards!(Queen of Hearts, Queen of Clubs,)", &[41,43], &cards!(Queen of Hearts, Queen of Clubs,)),
    ("cards!(Queen of Hearts, King of Spades)", &[41,44], &cards!(Queen of Hearts, King of Spades)),
    ("cards!(Queen of Hearts, King of Hearts,)", &[41,45], &cards!(Queen of Hearts, King of Hearts,)),
    ("cards!(Queen of Hearts, King of Diamonds)", &[41,46], &cards!(Queen of Hearts, King of Diamonds)),
    ("cards!(Queen of Hearts, King of Clubs,)", &[41,47], &cards!(Queen of Hearts, King of Clubs,)),
    ("cards!(Queen of Hearts, Ace of Spades)", &[41,48], &cards!(Queen of Hearts, Ace of Spades)),
    ("cards!(Queen of Hearts, Ace of Hearts,)", &[41,49], &cards!(Queen of Hearts, Ace of Hearts,)),
    ("cards!(Queen of Hearts, Ace of Diamonds)", &[41,50], &cards!(Queen of Hearts, Ace of Diamonds)),
    ("cards!(Queen of Hearts, Ace of Clubs,)", &[41,51], &cards!(Queen of Hearts, Ace of Clubs,)),
    ("cards!(Queen of Diamonds, Two of Spades,)", &[42,0], &cards!(Queen of Diamonds, Two of Spades,)),
    ("cards!(Queen of Diamonds, Two of Hearts)", &[42,1], &cards!(Queen of Diamonds, Two of Hearts)),
    ("cards!(Queen of Diamonds, Two of Diamonds,)", &[42,2], &cards!(Queen of Diamonds, Two of Diamonds,)),
    ("cards!(Queen of Diamonds, Two of Clubs)", &[42,3], &cards!(Queen of Diamonds, Two of Clubs)),
    ("cards!(Queen of Diamonds, Three of Spades,)", &[42,4], &cards!(Queen of Diamonds, Three of Spades,)),
    ("cards!(Queen of Diamonds, Three of Hearts)", &[42,5], &cards!(Queen of Diamonds, Three of Hearts)),
    ("cards!(Queen of Diamonds, Three of Diamonds,)", &[42,6], &cards!(Queen of Diamonds, Three of Diamonds,)),
    ("cards!(Queen of Diamonds, Three of Clubs)", &[42,7], &cards!(Queen of Diamonds, Three of Clubs)),
    ("cards!(Queen of Diamonds, Four of Spades,)", &[42,8], &cards!(Queen of Diamonds, Four of Spades,)),
    ("cards!(Queen of Diamonds, Four of Hearts)", &[42,9], &cards!(Queen of Diamonds, Four of Hearts)),
    ("cards!(Queen of Diamonds, Four of Diamonds,)", &[42,10], &cards!(Queen of Diamonds, Four of Diamonds,)),
    ("cards!(Queen of Diamonds, Four of Clubs)", &[42,11], &cards!(Queen of Diamonds, Four of Clubs)),
    ("cards!(Queen of Diamonds, Five of Spades,)", &[42,12], &cards!(Queen of Diamonds, Five of Spades,)),
    ("cards!(Queen of Diamonds, Five of Hearts)", &[42,13], &cards!(Queen of Diamonds, Five of Hearts)),
    ("cards!(Queen of Diamonds, Five of Diamonds,)", &[42,14], &cards!(Queen of Diamonds, Five of Diamonds,)),
    ("cards!(Queen of Diamonds, Five of Clubs)", &[42,15], &cards!(Queen of Diamonds, Five of Clubs)),
    ("cards!(Queen of Diamonds, Six of Spades,)", &[42,16], &cards!(Queen of Diamonds, Six of Spades,)),
    ("cards!(Queen of Diamonds, Six of Hearts)", &[42,17], &cards!(Queen of Diamonds, Six of Hearts)),
    ("cards!(Queen of Diamonds, Six of Diamonds,)", &[42,18], &cards!(Queen of Diamonds, Six of Diamonds,)),
    ("cards!(Queen of Diamonds, Six of Clubs)", &[42,19], &cards!(Queen of Diamonds, Six of Clubs)),
    ("cards!(Queen of Diamonds, Seven of Spades,)", &[42,20], &cards!(Queen of Diamonds, Seven of Spades,)),
    ("cards!(Queen of Diamonds, Seven of Hearts)", &[42,21], &cards!(Queen of Diamonds, Seven of Hearts)),
    ("cards!(Queen of Diamonds, Seven of Diamonds,)", &[42,22], &cards!(Queen of Diamonds, Seven of Diamonds,)),
    ("cards!(Queen of Diamonds, Seven of Clubs)", &[42,23], &cards!(Queen of Diamonds, Seven of Clubs)),
    ("cards!(Queen of Diamonds, Eight of Spades,)", &[42,24], &cards!(Queen of Diamonds, Eight of Spades,)),
    ("cards!(Queen of Diamonds, Eight of Hearts)", &[42,25], &cards!(Queen of Diamonds, Eight of Hearts)),
    ("cards!(Queen of Diamonds, Eight of Diamonds,)", &[42,26], &cards!(Queen of Diamonds, Eight of Diamonds,)),
    ("cards!(Queen of Diamonds, Eight of Clubs)", &[42,27], &cards!(Queen of Diamonds, Eight of Clubs)),
    ("cards!(Queen of Diamonds, Nine of Spades,)", &[42,28], &cards!(Queen of Diamonds, Nine of Spades,)),
    ("cards!(Queen of Diamonds, Nine of Hearts)", &[42,29], &cards!(Queen of Diamonds, Nine of Hearts)),
    ("cards!(Queen of Diamonds, Nine of Diamonds,)", &[42,30], &cards!(Queen of Diamonds, Nine of Diamonds,)),
    ("cards!(Queen of Diamonds, Nine of Clubs)", &[42,31], &cards!(Queen of Diamonds, Nine of Clubs)),
    ("cards!(Queen of Diamonds, Ten of Spades,)", &[42,32], &cards!(Queen of Diamonds, Ten of Spades,)),
    ("cards!(Queen of Diamonds, Ten of Hearts)", &[42,33], &cards!(Queen of Diamonds, Ten of Hearts)),
    ("cards!(Queen of Diamonds, Ten of Diamonds,)", &[42,34], &cards!(Queen of Diamonds, Ten of Diamonds,)),
    ("cards!(Queen of Diamonds, Ten of Clubs)", &[42,35], &cards!(Queen of Diamonds, Ten of Clubs)),
    ("cards!(Queen of Diamonds, Jack of Spades,)", &[42,36], &cards!(Queen of Diamonds, Jack of Spades,)),
    ("cards!(Queen of Diamonds, Jack of Hearts)", &[42,37], &cards!(Queen of Diamonds, Jack of Hearts)),
    ("cards!(Queen of Diamonds, Jack of Diamonds,)", &[42,38], &cards!(Queen of Diamonds, Jack of Diamonds,)),
    ("cards!(Queen of Diamonds, Jack of Clubs)", &[42,39], &cards!(Queen of Diamonds, Jack of Clubs)),
    ("cards!(Queen of Diamonds, Queen of Spades,)", &[42,40], &cards!(Queen of Diamonds, Queen of Spades,)),
    ("cards!(Queen of Diamonds, Queen of Hearts)", &[42,41], &cards!(Queen of Diamonds, Queen of Hearts)),
    ("cards!(Queen of Diamonds, Queen of Diamonds,)", &[42,42], &cards!(Queen of Diamonds, Queen of Diamonds,)),
    ("cards!(Queen of Diamonds, Queen of Clubs)", &[42,43], &cards!(Queen of Diamonds, Queen of Clubs)),
    ("cards!(Queen of Diamonds, King of Spades,)", &[42,44], &cards!(Queen of Diamonds, King of Spades,)),
    ("cards!(Queen of Diamonds, King of Hearts)", &[42,45], &cards!(Queen of Diamonds, King of Hearts)),
    ("cards!(Queen of Diamonds, King of Diamonds,)", &[42,46], &cards!(Queen of Diamonds, King of Diamonds,)),
    ("cards!(Queen of Diamonds, King of Clubs)", &[42,47], &cards!(Queen of Diamonds, King of Clubs)),
    ("cards!(Queen of Diamonds, Ace of Spades,)", &[42,48], &cards!(Queen of Diamonds, Ace of Spades,)),
    ("cards!(Queen of Diamonds, Ace of Hearts)", &[42,49], &cards!(Queen of Diamonds, Ace of Hearts)),
    ("cards!(Queen of Diamonds, Ace of Diamonds,)", &[42,50], &cards!(Queen of Diamonds, Ace of Diamonds,)),
    ("cards!(Queen of Diamonds, Ace of Clubs)", &[42,51], &cards!(Queen of Diamonds, Ace of Clubs)),
    ("cards!(Queen of Clubs, Two of Spades)", &[43,0], &cards!(Queen of Clubs, Two of Spades)),
    ("cards!(Queen of Clubs, Two of Hearts,)", &[43,1], &cards!(Queen of Clubs, Two of Hearts,)),
    ("cards!(Queen of Clubs, Two of Diamonds)", &[43,2], &cards!(Queen of Clubs, Two of Diamonds)),
    ("cards!(Queen of Clubs, Two of Clubs,)", &[43,3], &cards!(Queen of Clubs, Two of Clubs,)),
    ("cards!(Queen of Clubs, Three of Spades)", &[43,4], &cards!(Queen of Clubs, Three of Spades)),
    ("cards!(Queen of Clubs, Three of Hearts,)", &[43,5], &cards!(Queen of Clubs, Three of Hearts,)),
    ("cards!(Queen of Clubs, Three of Diamonds)", &[43,6], &cards!(Queen of Clubs, Three of Diamonds)),
    ("cards!(Queen of Clubs, Three of Clubs,)", &[43,7], &cards!(Queen of Clubs, Three of Clubs,)),
    ("cards!(Queen of Clubs, Four of Spades)", &[43,8], &cards!(Queen of Clubs, Four of Spades)),
    ("cards!(Queen of Clubs, Four of Hearts,)", &[43,9], &cards!(Queen of Clubs, Four of Hearts,)),
    ("cards!(Queen of Clubs, Four of Diamonds)", &[43,10], &cards!(Queen of Clubs, Four of Diamonds)),
    ("cards!(Queen of Clubs, Four of Clubs,)", &[43,11], &cards!(Queen of Clubs, Four of Clubs,)),
    ("cards!(Queen of Clubs, Five of Spades)", &[43,12], &cards!(Queen of Clubs, Five of Spades)),
    ("cards!(Queen of Clubs, Five of Hearts,)", &[43,13], &cards!(Queen of Clubs, Five of Hearts,)),
    ("cards!(Queen of Clubs, Five of Diamonds)", &[43,14], &cards!(Queen of Clubs, Five of Diamonds)),
    ("cards!(Queen of Clubs, Five of Clubs,)", &[43,15], &cards!(Queen of Clubs, Five of Clubs,)),
    ("cards!(Queen of Clubs, Six of Spades)", &[43,16], &cards!(Queen of Clubs, Six of Spades)),
    ("cards!(Queen of Clubs, Six of Hearts,)", &[43,17], &cards!(Queen of Clubs, Six of Hearts,)),
    ("cards!(Queen of Clubs, Six of Diamonds)", &[43,18], &cards!(Queen of Clubs, Six of Diamonds)),
    ("cards!(Queen of Clubs, Six of Clubs,)", &[43,19], &cards!(Queen of Clubs, Six of Clubs,)),
    ("cards!(Queen of Clubs, Seven of Spades)", &[43,20], &cards!(Queen of Clubs, Seven of Spades)),
    ("cards!(Queen of Clubs, Seven of Hearts,)", &[43,21], &cards!(Queen of Clubs, Seven of Hearts,)),
    ("cards!(Queen of Clubs, Seven of Diamonds)", &[43,22], &cards!(Queen of Clubs, Seven of Diamonds)),
    ("cards!(Queen of Clubs, Seven of Clubs,)", &[43,23], &cards!(Queen of Clubs, Seven of Clubs,)),
    ("cards!(Queen of Clubs, Eight of Spades)", &[43,24], &cards!(Queen of Clubs, Eight of Spades)),
    ("cards!(Queen of Clubs, Eight of Hearts,)", &[43,25], &cards!(Queen of Clubs, Eight of Hearts,)),
    ("cards!(Queen of Clubs, Eight of Diamonds)", &[43,26], &cards!(Queen of Clubs, Eight of Diamonds)),
    ("cards!(Queen of Clubs, Eight of Clubs,)", &[43,27], &cards!(Queen of Clubs, Eight of Clubs,)),
    ("cards!(Queen of Clubs, Nine of Spades)", &[43,28], &cards!(Queen of Clubs, Nine of Spades)),
    ("cards!(Queen of Clubs, Nine of Hearts,)", &[43,29], &cards!(Queen of Clubs, Nine of Hearts,)),
    ("cards!(Queen of Clubs, Nine of Diamonds)", &[43,30], &cards!(Queen of Clubs, Nine of Diamonds)),
    ("cards!(Queen of Clubs, Nine of Clubs,)", &[43,31], &cards!(Queen of Clubs, Nine of Clubs,)),
    ("cards!(Queen of Clubs, Ten of Spades)", &[43,32], &cards!(Queen of Clubs, Ten of Spades)),
    ("cards!(Queen of Clubs, Ten of Hearts,)", &[43,33], &cards!(Queen of Clubs, Ten of Hearts,)),
    ("cards!(Queen of Clubs, Ten of Diamonds)", &[43,34], &cards!(Queen of Clubs, Ten of Diamonds)),
    ("cards!(Queen of Clubs, Ten of Clubs,)", &[43,35], &cards!(Queen of Clubs, Ten of Clubs,)),
    ("cards!(Queen of Clubs, Jack of Spades)", &[43,36], &cards!(Queen of Clubs, Jack of Spades)),
    ("cards!(Queen of Clubs, Jack of Hearts,)", &[43,37], &cards!(Queen of Clubs, Jack of Hearts,)),
    ("cards!(Queen of Clubs, Jack of Diamonds)", &[43,38], &cards!(Queen of Clubs, Jack of Diamonds)),
    ("cards!(Queen of Clubs, Jack of Clubs,)", &[43,39], &cards!(Queen of Clubs, Jack of Clubs,)),
    ("cards!(Queen of Clubs, Queen of Spades)", &[43,40], &cards!(Queen of Clubs, Queen of Spades)),
    ("cards!(Queen of Clubs, Queen of Hearts,)", &[43,41], &cards!(Queen of Clubs, Queen of Hearts,)),
    ("cards!(Queen of Clubs, Queen of Diamonds)", &[43,42], &cards!(Queen of Clubs, Queen of Diamonds)),
    ("cards!(Queen of Clubs, Queen of Clubs,)", &[43,43], &cards!(Queen of Clubs, Queen of Clubs,)),
    ("cards!(Queen of Clubs, King of Spades)", &[43,44], &cards!(Queen of Clubs, King of Spades)),
    ("cards!(Queen of Clubs, King of Hearts,)", &[43,45], &cards!(Queen of Clubs, King of Hearts,)),
    ("cards!(Queen of Clubs, King of Diamonds)", &[43,46], &cards!(Queen of Clubs, King of Diamonds)),
    ("cards!(Queen of Clubs, King of Clubs,)", &[43,47], &cards!(Queen of Clubs, King of Clubs,)),
    ("cards!(Queen of Clubs, Ace of Spades)", &[43,48], &cards!(Queen of Clubs, Ace of Spades)),
    ("cards!(Queen of Clubs, Ace of Hearts,)", &[43,49], &cards!(Queen of Clubs, Ace of Hearts,)),
    ("cards!(Queen of Clubs, Ace of Diamonds)", &[43,50], &cards!(Queen of Clubs, Ace of Diamonds)),
    ("cards!(Queen of Clubs, Ace of Clubs,)", &[43,51], &cards!(Queen of Clubs, Ace of Clubs,)),
    ("cards!(King of Spades, Two of Spades,)", &[44,0], &cards!(King of Spades, Two of Spades,)),
    ("cards!(King of Spades, Two of Hearts)", &[44,1], &cards!(King of Spades, Two of Hearts)),
    ("cards!(King of Spades, Two of Diamonds,)", &[44,2], &cards!(King of Spades, Two of Diamonds,)),
    ("cards!(King of Spades, Two of Clubs)", &[44,3], &cards!(King of Spades, Two of Clubs)),
    ("cards!(King of Spades, Three of Spades,)", &[44,4], &cards!(King of Spades, Three of Spades,)),
    ("cards!(King of Spades, Three of Hearts)", &[44,5], &cards!(King of Spades, Three of Hearts)),
    ("cards!(King of Spades, Three of Diamonds,)", &[44,6], &cards!(King of Spades, Three of Diamonds,)),
    ("cards!(King of Spades, Three of Clubs)", &[44,7], &cards!(King of Spades, Three of Clubs)),
    ("cards!(King of Spades, Four of Spades,)", &[44,8], &cards!(King of Spades, Four of Spades,)),
    ("cards!(King of Spades, Four of Hearts)", &[44,9], &cards!(King of Spades, Four of Hearts)),
    ("cards!(King of Spades, Four of Diamonds,)", &[44,10], &cards!(King of Spades, Four of Diamonds,)),
    ("cards!(King of Spades, Four of Clubs)", &[44,11], &cards!(King of Spades, Four of Clubs)),
    ("cards!(King of Spades, Five of Spades,)", &[44,12], &cards!(King of Spades, Five of Spades,)),
    ("cards!(King of Spades, Five of Hearts)", &[44,13], &cards!(King of Spades, Five of Hearts)),
    ("cards!(King of Spades, Five of Diamonds,)", &[44,14], &cards!(King of Spades, Five of Diamonds,)),
    ("cards!(King of Spades, Five of Clubs)", &[44,15], &cards!(King of Spades, Five of Clubs)),
    ("cards!(King of Spades, Six of Spades,)", &[44,16], &cards!(King of Spades, Six of Spades,)),
    ("cards!(King of Spades, Six of Hearts)", &[44,17], &cards!(King of Spades, Six of Hearts)),
    ("cards!(King of Spades, Six of Diamonds,)", &[44,18], &cards!(King of Spades, Six of Diamonds,)),
    ("cards!(King of Spades, Six of Clubs)", &[44,19], &cards!(King of Spades, Six of Clubs)),
    ("cards!(King of Spades, Seven of Spades,)", &[44,20], &cards!(King of Spades, Seven of Spades,)),
    ("cards!(King of Spades, Seven of Hearts)", &[44,21], &cards!(King of Spades, Seven of Hearts)),
    ("cards!(King of Spades, Seven of Diamonds,)", &[44,22], &cards!(King of Spades, Seven of Diamonds,)),
    ("cards!(King of Spades, Seven of Clubs)", &[44,23], &cards!(King of Spades, Seven of Clubs)),
    ("cards!(King of Spades, Eight of Spades,)", &[44,24], &cards!(King of Spades, Eight of Spades,)),
    ("cards!(King of Spades, Eight of Hearts)", &[44,25], &cards!(King of Spades, Eight of Hearts)),
    ("cards!(King of Spades, Eight of Diamonds,)", &[44,26], &cards!(King of Spades, Eight of Diamonds,)),
    ("cards!(King of Spades, Eight of Clubs)", &[44,27], &cards!(King of Spades, Eight of Clubs)),
    ("cards!(King of Spades, Nine of Spades,)", &[44,28], &cards!(King of Spades, Nine of Spades,)),
    ("cards!(King of Spades, Nine of Hearts)", &[44,29], &cards!(King of Spades, Nine of Hearts)),
    ("cards!(King of Spades, Nine of Diamonds,)", &[44,30], &cards!(King of Spades, Nine of Diamonds,)),
    ("cards!(King of Spades, Nine of Clubs)", &[44,31], &cards!(King of Spades, Nine of Clubs)),
    ("cards!(King of Spades, Ten of Spades,)", &[44,32], &cards!(King of Spades, Ten of Spades,)),
    ("cards!(King of Spades, Ten of Hearts)", &[44,33], &cards!(King of Spades, Ten of Hearts)),
    ("cards!(King of Spades, Ten of Diamonds,)", &[44,34], &cards!(King of Spades, Ten of Diamonds,)),
    ("cards!(King of Spades, Ten of Clubs)", &[44,35], &cards!(King of Spades, Ten of Clubs)),
    ("cards!(King of Spades, Jack of Spades,)", &[44,36], &cards!(King of Spades, Jack of Spades,)),
    ("cards!(King of Spades, Jack of Hearts)", &[44,37], &cards!(King of Spades, Jack of Hearts)),
    ("cards!(King of Spades, Jack of Diamonds,)", &[44,38], &cards!(King of Spades, Jack of Diamonds,)),
    ("cards!(King of Spades, Jack of Clubs)", &[44,39], &cards!(King of Spades, Jack of Clubs)),
    ("cards!(King of Spades, Queen of Spades,)", &[44,40], &cards!(King of Spades, Queen of Spades,)),
    ("cards!(King of Spades, Queen of Hearts)", &[44,41], &cards!(King of Spades, Queen of Hearts)),
    ("cards!(King of Spades, Queen of Diamonds,)", &[44,42], &cards!(King of Spades, Queen of Diamonds,)),
    ("cards!(King of Spades, Queen of Clubs)", &[44,43], &cards!(King of Spades, Queen of Clubs)),
    ("cards!(King of Spades, King of Spades,)", &[44,44], &cards!(King of Spades, King of Spades,)),
    ("cards!(King of Spades, King of Hearts)", &[44,45], &cards!(King of Spades, King of Hearts)),
    ("cards!(King of Spades, King of Diamonds,)", &[44,46], &cards!(King of Spades, King of Diamonds,)),
    ("cards!(King of Spades, King of Clubs)", &[44,47], &cards!(King of Spades, King of Clubs)),
    ("cards!(King of Spades, Ace of Spades,)", &[44,48], &cards!(King of Spades, Ace of Spades,)),
    ("cards!(King of Spades, Ace of Hearts)", &[44,49], &cards!(King of Spades, Ace of Hearts)),
    ("cards!(King of Spades, Ace of Diamonds,)", &[44,50], &cards!(King of Spades, Ace of Diamonds,)),
    ("cards!(King of Spades, Ace of Clubs)", &[44,51], &cards!(King of Spades, Ace of Clubs)),
    ("cards!(King of Hearts, Two of Spades)", &[45,0], &cards!(King of Hearts, Two of Spades)),
    ("cards!(King of Hearts, Two of Hearts,)", &[45,1], &cards!(King of Hearts, Two of Hearts,)),
    ("cards!(King of Hearts, Two of Diamonds)", &[45,2], &cards!(King of Hearts, Two of Diamonds)),
    ("cards!(King of Hearts, Two of Clubs,)", &[45,3], &cards!(King of Hearts, Two of Clubs,)),
    ("cards!(King of Hearts, Three of Spades)", &[45,4], &cards!(King of Hearts, Three of Spades)),
    ("cards!(King of Hearts, Three of Hearts,)", &[45,5], &cards!(King of Hearts, Three of Hearts,)),
    ("cards!(King of Hearts, Three of Diamonds)", &[45,6], &cards!(King of Hearts, Three of Diamonds)),
    ("cards!(King of Hearts, Three of Clubs,)", &[45,7], &cards!(King of Hearts, Three of Clubs,)),
    ("cards!(King of Hearts, Four of Spades)", &[45,8], &cards!(King of Hearts, Four of Spades)),
    ("cards!(King of Hearts, Four of Hearts,)", &[45,9], &cards!(King of Hearts, Four of Hearts,)),
    ("cards!(King of Hearts, Four of Diamonds)", &[45,10], &cards!(King of Hearts, Four of Diamonds)),
    ("cards!(King of Hearts, Four of Clubs,)", &[45,11], &cards!(King of Hearts, Four of Clubs,)),
    ("cards!(King of Hearts, Five of Spades)", &[45,12], &cards!(King of Hearts, Five of Spades)),
    ("cards!(King of Hearts, Five of Hearts,)", &[45,13], &cards!(King of Hearts, Five of Hearts,)),
    ("cards!(King of Hearts, Five of Diamonds)", &[45,14], &cards!(King of Hearts, Five of Diamonds)),
    ("cards!(King of Hearts, Five of Clubs,)", &[45,15], &cards!(King of Hearts, Five of Clubs,)),
    ("cards!(King of Hearts, Six of Spades)", &[45,16], &cards!(King of Hearts, Six of Spades)),
    ("cards!(King of Hearts, Six of Hearts,)", &[45,17], &cards!(King of Hearts, Six of Hearts,)),
    ("cards!(King of Hearts, Six of Diamonds)", &[45,18], &cards!(King of Hearts, Six of Diamonds)),
    ("cards!(King of Hearts, Six of Clubs,)", &[45,19], &cards!(King of Hearts, Six of Clubs,)),
    ("cards!(King of Hearts, Seven of Spades)", &[45,20], &cards!(King of Hearts, Seven of Spades)),
    ("cards!(King of Hearts, Seven of Hearts,)", &[45,21], &cards!(King of Hearts, Seven of Hearts,)),
    ("cards!(King of Hearts, Seven of Diamonds)", &[45,22], &cards!(King of Hearts, Seven of Diamonds)),
    ("cards!(King of Hearts, Seven of Clubs,)", &[45,23], &cards!(King of Hearts, Seven of Clubs,)),
    ("cards!(King of Hearts, Eight of Spades)", &[45,24], &cards!(King of Hearts, Eight of Spades)),
    ("cards!(King of Hearts, Eight of Hearts,)", &[45,25], &cards!(King of Hearts, Eight of Hearts,)),
    ("cards!(King of Hearts, Eight of Diamonds)", &[45,26], &cards!(King of Hearts, Eight of Diamonds)),
    ("cards!(King of Hearts, Eight of Clubs,)", &[45,27], &cards!(King of Hearts, Eight of Clubs,)),
    ("cards!(King of Hearts, Nine of Spades)", &[45,28], &cards!(King of Hearts, Nine of Spades)),
    ("cards!(King of Hearts, Nine of Hearts,)", &[45,29], &cards!(King of Hearts, Nine of Hearts,)),
    ("cards!(King of Hearts, Nine of Diamonds)", &[45,30], &cards!(King of Hearts, Nine of Diamonds)),
    ("cards!(King of Hearts, Nine of Clubs,)", &[45,31], &cards!(King of Hearts, Nine of Clubs,)),
    ("cards!(King of Hearts, Ten of Spades)", &[45,32], &cards!(King of Hearts, Ten of Spades)),
    ("cards!(King of Hearts, Ten of Hearts,)", &[45,33], &cards!(King of Hearts, Ten of Hearts,)),
    ("cards!(King of Hearts, Ten of Diamonds)", &[45,34], &cards!(King of Hearts, Ten of Diamonds)),
    ("cards!(King of Hearts, Ten of Clubs,)", &[45,35], &cards!(King of Hearts, Ten of Clubs,)),
    ("cards!(King of Hearts, Jack of Spades)", &[45,36], &cards!(King of Hearts, Jack of Spades)),
    ("cards!(King of Hearts, Jack of Hearts,)", &[45,37], &cards!(King of Hearts, Jack of Hearts,)),
    ("cards!(King of Hearts, Jack of Diamonds)", &[45,38], &cards!(King of Hearts, Jack of Diamonds)),
    ("cards!(King of Hearts, Jack of Clubs,)", &[45,39], &cards!(King of Hearts, Jack of Clubs,)),
    ("cards!(King of Hearts, Queen of Spades)", &[45,40], &cards!(King of Hearts, Queen of Spades)),
    ("cards!(King of Hearts, Queen of Hearts,)", &[45,41], &cards!(King of Hearts, Queen of Hearts,)),
    ("cards!(King of Hearts, Queen of Diamonds)", &[45,42], &cards!(King of Hearts, Queen of Diamonds)),
    ("cards!(King of Hearts, Queen of Clubs,)", &[45,43], &cards!(King of Hearts, Queen of Clubs,)),
    ("cards!(King of Hearts, King of Spades)", &[45,44], &cards!(King of Hearts, King of Spades)),
    ("cards!(King of Hearts, King of Hearts,)", &[45,45], &cards!(King of Hearts, King of Hearts,)),
    ("cards!(King of Hearts, King of Diamonds)", &[45,46], &cards!(King of Hearts, King of Diamonds)),
    ("cards!(King of Hearts, King of Clubs,)", &[45,47], &cards!(King of Hearts, King of Clubs,)),
    ("cards!(King of Hearts, Ace of Spades)", &[45,48], &cards!(King of Hearts, Ace of Spades)),
    ("cards!(King of Hearts, Ace of Hearts,)", &[45,49], &cards!(King of Hearts, Ace of Hearts,)),
    ("cards!(King of Hearts, Ace of Diamonds)", &[45,50], &cards!(King of Hearts, Ace of Diamonds)),
    ("cards!(King of Hearts, Ace of Clubs,)", &[45,51], &cards!(King of Hearts, Ace of Clubs,)),
    ("cards!(King of Diamonds, Two of Spades,)", &[46,0], &cards!(King of Diamonds, Two of Spades,)),
    ("cards!(King of Diamonds, Two of Hearts)", &[46,1], &cards!(King of Diamonds, Two of Hearts)),
    ("cards!(King of Diamonds, Two of Diamonds,)", &[46,2], &cards!(King of Diamonds, Two of Diamonds,)),
    ("cards!(King of Diamonds, Two of Clubs)", &[46,3], &cards!(King of Diamonds, Two of Clubs)),
    ("cards!(King of Diamonds, Three of Spades,)", &[46,4], &cards!(King of Diamonds, Three of Spades,)),
    ("cards!(King of Diamonds, Three of Hearts)", &[46,5], &cards!(King of Diamonds, Three of Hearts)),
    ("cards!(King of Diamonds, Three of Diamonds,)", &[46,6], &cards!(King of Diamonds, Three of Diamonds,)),
    ("cards!(King of Diamonds, Three of Clubs)", &[46,7], &cards!(King of Diamonds, Three of Clubs)),
    ("cards!(King of Diamonds, Four of Spades,)", &[46,8], &cards!(King of Diamonds, Four of Spades,)),
    ("cards!(King of Diamonds, Four of Hearts)", &[46,9], &cards!(King of Diamonds, Four of Hearts)),
    ("cards!(King of Diamonds, Four of Diamonds,)", &[46,10], &cards!(King of Diamonds, Four of Diamonds,)),
    ("cards!(King of Diamonds, Four of Clubs)", &[46,11], &cards!(King of Diamonds, Four of Clubs)),
    ("cards!(King of Diamonds, Five of Spades,)", &[46,12], &cards!(King of Diamonds, Five of Spades,)),
    ("cards!(King of Diamonds, Five of Hearts)", &[46,13], &cards!(King of Diamonds, Five of Hearts)),
    ("cards!(King of Diamonds, Five of Diamonds,)", &[46,14], &cards!(King of Diamonds, Five of Diamonds,)),
    ("cards!(King of Diamonds, Five of Clubs)", &[46,15], &cards!(King of Diamonds, Five of Clubs)),
    ("cards!(King of Diamonds, Six of Spades,)", &[46,16], &cards!(King of Diamonds, Six of Spades,)),
    ("cards!(King of Diamonds, Six of Hearts)", &[46,17], &cards!(King of Diamonds, Six of Hearts)),
    ("cards!(King of Diamonds, Six of Diamonds,)", &[46,18], &cards!(King of Diamonds, Six of Diamonds,)),
    ("cards!(King of Diamonds, Six of Clubs)", &[46,19], &cards!(King of Diamonds, Six of Clubs)),
    ("cards!(King of Diamonds, Seven of Spades,)", &[46,20], &cards!(King of Diamonds, Seven of Spades,)),
    ("cards!(King of Diamonds, Seven of Hearts)", &[46,21], &cards!(King of Diamonds, Seven of Hearts)),
    ("cards!(King of Diamonds, Seven of Diamonds,)", &[46,22], &cards!(King of Diamonds, Seven of Diamonds,)),
    ("cards!(King of Diamonds, Seven of Clubs)", &[46,23], &cards!(King of Diamonds, Seven of Clubs)),
    ("cards!(King of Diamonds, Eight of Spades,)", &[46,24], &cards!(King of Diamonds, Eight of Spades,)),
    ("cards!(King of Diamonds, Eight of Hearts)", &[46,25], &cards!(King of Diamonds, Eight of Hearts)),
    ("cards!(King of Diamonds, Eight of Diamonds,)", &[46,26], &cards!(King of Diamonds, Eight of Diamonds,)),
    ("cards!(King of Diamonds, Eight of Clubs)", &[46,27], &cards!(King of Diamonds, Eight of Clubs)),
    ("cards!(King of Diamonds, Nine of Spades,)", &[46,28], &cards!(King of Diamonds, Nine of Spades,)),
    ("cards!(King of Diamonds, Nine of Hearts)", &[46,29], &cards!(King of Diamonds, Nine of Hearts)),
    ("cards!(King of Diamonds, Nine of Diamonds,)", &[46,30], &cards!(King of Diamonds, Nine of Diamonds,)),
    ("cards!(King of Diamonds, Nine of Clubs)", &[46,31], &cards!(King of Diamonds, Nine of Clubs)),
    ("cards!(King of Diamonds, Ten of Spades,)", &[46,32], &cards!(King of Diamonds, Ten of Spades,)),
    ("cards!(King of Diamonds, Ten of Hearts)", &[46,33], &cards!(King of Diamonds, Ten of Hearts)),
    ("cards!(King of Diamonds, Ten of Diamonds,)", &[46,34], &cards!(King of Diamonds, Ten of Diamonds,)),
    ("cards!(King of Diamonds, Ten of Clubs)", &[46,35], &cards!(King of Diamonds, Ten of Clubs)),
    ("cards!(King of Diamonds, Jack of Spades,)", &[46,36], &cards!(King of Diamonds, Jack of Spades,)),
    ("cards!(King of Diamonds, Jack of Hearts)", &[46,37], &cards!(King of Diamonds, Jack of Hearts)),
    ("cards!(King of Diamonds, Jack of Diamonds,)", &[46,38], &cards!(King of Diamonds, Jack of Diamonds,)),
    ("cards!(King of Diamonds, Jack of Clubs)", &[46,39], &cards!(King of Diamonds, Jack of Clubs)),
    ("cards!(King of Diamonds, Queen of Spades,)", &[46,40], &cards!(King of Diamonds, Queen of Spades,)),
    ("cards!(King of Diamonds, Queen of Hearts)", &[46,41], &cards!(King of Diamonds, Queen of Hearts)),
    ("cards!(King of Diamonds, Queen of Diamonds,)", &[46,42], &cards!(King of Diamonds, Queen of Diamonds,)),
    ("cards!(King of Diamonds, Queen of Clubs)", &[46,43], &cards!(King of Diamonds, Queen of Clubs)),
    ("cards!(King of Diamonds, King of Spades,)", &[46,44], &cards!(King of Diamonds, King of Spades,)),
    ("cards!(King of Diamonds, King of Hearts)", &[46,45], &cards!(King of Diamonds, King of Hearts)),
    ("cards!(King of Diamonds, King of Diamonds,)", &[46,46], &cards!(King of Diamonds, King of Diamonds,)),
    ("cards!(King of Diamonds, King of Clubs)", &[46,47], &cards!(King of Diamonds, King of Clubs)),
    ("cards!(King of Diamonds, Ace of Spades,)", &[46,48], &cards!(King of Diamonds, Ace of Spades,)),
    ("cards!(King of Diamonds, Ace of Hearts)", &[46,49], &cards!(King of Diamonds, Ace of Hearts)),
    ("cards!(King of Diamonds, Ace of Diamonds,)", &[46,50], &cards!(King of Diamonds, Ace of Diamonds,)),
    ("cards!(King of Diamonds, Ace of Clubs)", &[46,51], &cards!(King of Diamonds, Ace of Clubs)),
    ("cards!(King of Clubs, Two of Spades)", &[47,0], &cards!(King of Clubs, Two of Spades)),
    ("cards!(King of Clubs, Two of Hearts,)", &[47,1], &cards!(King of Clubs, Two of Hearts,)),
    ("cards!(King of Clubs, Two of Diamonds)", &[47,2], &cards!(King of Clubs, Two of Diamonds)),
    ("cards!(King of Clubs, Two of Clubs,)", &[47,3], &cards!(King of Clubs, Two of Clubs,)),
    ("cards!(King of Clubs, Three of Spades)", &[47,4], &cards!(King of Clubs, Three of Spades)),
    ("cards!(King of Clubs, Three of Hearts,)", &[47,5], &cards!(King of Clubs, Three of Hearts,)),
    ("cards!(King of Clubs, Three of Diamonds)", &[47,6], &cards!(King of Clubs, Three of Diamonds)),
    ("cards!(King of Clubs, Three of Clubs,)", &[47,7], &cards!(King of Clubs, Three of Clubs,)),
    ("cards!(King of Clubs, Four of Spades)", &[47,8], &cards!(King of Clubs, Four of Spades)),
    ("cards!(King of Clubs, Four of Hearts,)", &[47,9], &cards!(King of Clubs, Four of Hearts,)),
    ("cards!(King of Clubs, Four of Diamonds)", &[47,10], &cards!(King of Clubs, Four of Diamonds)),
    ("cards!(King of Clubs, Four of Clubs,)", &[47,11], &cards!(King of Clubs, Four of Clubs,)),
    ("cards!(King of Clubs, Five of Spades)", &[47,12], &cards!(King of Clubs, Five of Spades)),
    ("cards!(King of Clubs, Five of Hearts,)", &[47,13], &cards!(King of Clubs, Five of Hearts,)),
    ("cards!(King of Clubs, Five of Diamonds)", &[47,14], &cards!(King of Clubs, Five of Diamonds)),
    ("cards!(King of Clubs, Five of Clubs,)", &[47,15], &cards!(King of Clubs, Five of Clubs,)),
    ("cards!(King of Clubs, Six of Spades)", &[47,16], &cards!(King of Clubs, Six of Spades)),
    ("cards!(King of Clubs, Six of Hearts,)", &[47,17], &cards!(King of Clubs, Six of Hearts,)),
    ("cards!(King of Clubs, Six of Diamonds)", &[47,18], &cards!(King of Clubs, Six of Diamonds)),
    ("cards!(King of Clubs, Six of Clubs,)", &[47,19], &cards!(King of Clubs, Six of Clubs,)),
    ("cards!(King of Clubs, Seven of Spades)", &[47,20], &cards!(King of Clubs, Seven of Spades)),
    ("cards!(King of Clubs, Seven of Hearts,)", &[47,21], &cards!(King of Clubs, Seven of Hearts,)),
    ("cards!(King of Clubs, Seven of Diamonds)", &[47,22], &cards!(King of Clubs, Seven of Diamonds)),
    ("cards!(King of Clubs, Seven of Clubs,)", &[47,23], &cards!(King of Clubs, Seven of Clubs,)),
    ("cards!(King of Clubs, Eight of Spades)", &[47,24], &cards!(King of Clubs, Eight of Spades)),
    ("cards!(King of Clubs, Eight of Hearts,)", &[47,25], &cards!(King of Clubs, Eight of Hearts,)),
    ("cards!(King of Clubs, Eight of Diamonds)", &[47,26], &cards!(King of Clubs, Eight of Diamonds)),
    ("cards!(King of Clubs, Eight of Clubs,)", &[47,27], &cards!(King of Clubs, Eight of Clubs,)),
    ("cards!(King of Clubs, Nine of Spades)", &[47,28], &cards!(King of Clubs, Nine of Spades)),
    ("cards!(King of Clubs, Nine of Hearts,)", &[47,29], &cards!(King of Clubs, Nine of Hearts,)),
    ("cards!(King of Clubs, Nine of Diamonds)", &[47,30], &cards!(King of Clubs, Nine of Diamonds)),
    ("cards!(King of Clubs, Nine of Clubs,)", &[47,31], &cards!(King of Clubs, Nine of Clubs,)),
    ("cards!(King of Clubs, Ten of Spades)", &[47,32], &cards!(King of Clubs, Ten of Spades)),
    ("cards!(King of Clubs, Ten of Hearts,)", &[47,33], &cards!(King of Clubs, Ten of Hearts,)),
    ("cards!(King of Clubs, Ten of Diamonds)", &[47,34], &cards!(King of Clubs, Ten of Diamonds)),
    ("cards!(King of Clubs, Ten of Clubs,)", &[47,35], &cards!(King of Clubs, Ten of Clubs,)),
    ("cards!(King of Clubs, Jack of Spades)", &[47,36], &cards!(King of Clubs, Jack of Spades)),
    ("cards!(King of Clubs, Jack of Hearts,)", &[47,37], &cards!(King of Clubs, Jack of Hearts,)),
    ("cards!(King of Clubs, Jack of Diamonds)", &[47,38], &cards!(King of Clubs, Jack of Diamonds)),
    ("cards!(King of Clubs, Jack of Clubs,)", &[47,39], &cards!(King of Clubs, Jack of Clubs,)),
    ("cards!(King of Clubs, Queen of Spades)", &[47,40], &cards!(King of Clubs, Queen of Spades)),
    ("cards!(King of Clubs, Queen of Hearts,)", &[47,41], &cards!(King of Clubs, Queen of Hearts,)),
    ("cards!(King of Clubs, Queen of Diamonds)", &[47,42], &cards!(King of Clubs, Queen of Diamonds)),
    ("cards!(King of Clubs, Queen of Clubs,)", &[47,43], &cards!(King of Clubs, Queen of Clubs,)),
    ("cards!(King of Clubs, King of Spades)", &[47,44], &cards!(King of Clubs, King of Spades)),
    ("cards!(King of Clubs, King of Hearts,)", &[47,45], &cards!(King of Clubs, King of Hearts,)),
    ("cards!(King of Clubs, King of Diamonds)", &[47,46], &cards!(King of Clubs, King of Diamonds)),
    ("cards!(King of Clubs, King of Clubs,)", &[47,47], &cards!(King of Clubs, King of Clubs,)),
    ("cards!(King of Clubs, Ace of Spades)", &[47,48], &cards!(King of Clubs, Ace of Spades)),
    ("cards!(King of Clubs, Ace of Hearts,)", &[47,49], &cards!(King of Clubs, Ace of Hearts,)),
    ("cards!(King of Clubs, Ace of Diamonds)", &[47,50], &cards!(King of Clubs, Ace of Diamonds)),
    ("cards!(King of Clubs, Ace of Clubs,)", &[47,51], &cards!(King of Clubs, Ace of Clubs,)),
    ("cards!(Ace of Spades, Two of Spades,)", &[48,0], &cards!(Ace of Spades, Two of Spades,)),
    ("cards!(Ace of Spades, Two of Hearts)", &[48,1], &cards!(Ace of Spades, Two of Hearts)),
    ("cards!(Ace of Spades, Two of Diamonds,)", &[48,2], &cards!(Ace of Spades, Two of Diamonds,)),
    ("cards!(Ace of Spades, Two of Clubs)", &[48,3], &cards!(Ace of Spades, Two of Clubs)),
    ("cards!(Ace of Spades, Three of Spades,)", &[48,4], &cards!(Ace of Spades, Three of Spades,)),
    ("cards!(Ace of Spades, Three of Hearts)", &[48,5], &cards!(Ace of Spades, Three of Hearts)),
    ("cards!(Ace of Spades, Three of Diamonds,)", &[48,6], &cards!(Ace of Spades, Three of Diamonds,)),
    ("cards!(Ace of Spades, Three of Clubs)", &[48,7], &cards!(Ace of Spades, Three of Clubs)),
    ("cards!(Ace of Spades, Four of Spades,)", &[48,8], &cards!(Ace of Spades, Four of Spades,)),
    ("cards!(Ace of Spades, Four of Hearts)", &[48,9], &cards!(Ace of Spades, Four of Hearts)),
    ("cards!(Ace of Spades, Four of Diamonds,)", &[48,10], &cards!(Ace of Spades, Four of Diamonds,)),
    ("cards!(Ace of Spades, Four of Clubs)", &[48,11], &cards!(Ace of Spades, Four of Clubs)),
    ("cards!(Ace of Spades, Five of Spades,)", &[48,12], &cards!(Ace of Spades, Five of Spades,)),
    ("cards!(Ace of Spades, Five of Hearts)", &[48,13], &cards!(Ace of Spades, Five of Hearts)),
    ("cards!(Ace of Spades, Five of Diamonds,)", &[48,14], &cards!(Ace of Spades, Five of Diamonds,)),
    ("cards!(Ace of Spades, Five of Clubs)", &[48,15], &cards!(Ace of Spades, Five of Clubs)),
    ("cards!(Ace of Spades, Six of Spades,)", &[48,16], &cards!(Ace of Spades, Six of Spades,)),
    ("cards!(Ace of Spades, Six of Hearts)", &[48,17], &cards!(Ace of Spades, Six of Hearts)),
    ("cards!(Ace of Spades, Six of Diamonds,)", &[48,18], &cards!(Ace of Spades, Six of Diamonds,)),
    ("cards!(Ace of Spades, Six of Clubs)", &[48,19], &cards!(Ace of Spades, Six of Clubs)),
    ("cards!(Ace of Spades, Seven of Spades,)", &[48,20], &cards!(Ace of Spades, Seven of Spades,)),
    ("cards!(Ace of Spades, Seven of Hearts)", &[48,21], &cards!(Ace of Spades, Seven of Hearts)),
    ("cards!(Ace of Spades, Seven of Diamonds,)", &[48,22], &cards!(Ace of Spades, Seven of Diamonds,)),
    ("cards!(Ace of Spades, Seven of Clubs)", &[48,23], &cards!(Ace of Spades, Seven of Clubs)),
    ("cards!(Ace of Spades, Eight of Spades,)", &[48,24], &cards!(Ace of Spades, Eight of Spades,)),
    ("cards!(Ace of Spades, Eight of Hearts)", &[48,25], &cards!(Ace of Spades, Eight of Hearts)),
    ("cards!(Ace of Spades, Eight of Diamonds,)", &[48,26], &cards!(Ace of Spades, Eight of Diamonds,)),
    ("cards!(Ace of Spades, Eight of Clubs)", &[48,27], &cards!(Ace of Spades, Eight of Clubs)),
    ("cards!(Ace of Spades, Nine of Spades,)", &[48,28], &cards!(Ace of Spades, Nine of Spades,)),
    ("cards!(Ace of Spades, Nine of Hearts)", &[48,29], &cards!(Ace of Spades, Nine of Hearts)),
    ("cards!(Ace of Spades, Nine of Diamonds,)", &[48,30], &cards!(Ace of Spades, Nine of Diamonds,)),
    ("cards!(Ace of Spades, Nine of Clubs)", &[48,31], &cards!(Ace of Spades, Nine of Clubs)),
    ("cards!(Ace of Spades, Ten of Spades,)", &[48,32], &cards!(Ace of Spades, Ten of Spades,)),
    ("cards!(Ace of Spades, Ten of Hearts)", &[48,33], &cards!(Ace of Spades, Ten of Hearts)),
    ("cards!(Ace of Spades, Ten of Diamonds,)", &[48,34], &cards!(Ace of Spades, Ten of Diamonds,)),
    ("cards!(Ace of Spades, Ten of Clubs)", &[48,35], &cards!(Ace of Spades, Ten of Clubs)),
    ("cards!(Ace of Spades, Jack of Spades,)", &[48,36], &cards!(Ace of Spades, Jack of Spades,)),
    ("cards!(Ace of Spades, Jack of Hearts)", &[48,37], &cards!(Ace of Spades, Jack of Hearts)),
    ("cards!(Ace of Spades, Jack of Diamonds,)", &[48,38], &cards!(Ace of Spades, Jack of Diamonds,)),
    ("cards!(Ace of Spades, Jack of Clubs)", &[48,39], &cards!(Ace of Spades, Jack of Clubs)),
    ("cards!(Ace of Spades, Queen of Spades,)", &[48,40], &cards!(Ace of Spades, Queen of Spades,)),
    ("cards!(Ace of Spades, Queen of Hearts)", &[48,41], &cards!(Ace of Spades, Queen of Hearts)),
    ("cards!(Ace of Spades, Queen of Diamonds,)", &[48,42], &cards!(Ace of Spades, Queen of Diamonds,)),
    ("cards!(Ace of Spades, Queen of Clubs)", &[48,43], &cards!(Ace of Spades, Queen of Clubs)),
    ("cards!(Ace of Spades, King of Spades,)", &[48,44], &cards!(Ace of Spades, King of Spades,)),
    ("cards!(Ace of Spades, King of Hearts)", &[48,45], &cards!(Ace of Spades, King of Hearts)),
    ("cards!(Ace of Spades, King of Diamonds,)", &[48,46], &cards!(Ace of Spades, King of Diamonds,)),
    ("cards!(Ace of Spades, King of Clubs)", &[48,47], &cards!(Ace of Spades, King of Clubs)),
    ("cards!(Ace of Spades, Ace of Spades,)", &[48,48], &cards!(Ace of Spades, Ace of Spades,)),
    ("cards!(Ace of Spades, Ace of Hearts)", &[48,49], &cards!(Ace of Spades, Ace of Hearts)),
    ("cards!(Ace of Spades, Ace of Diamonds,)", &[48,50], &cards!(Ace of Spades, Ace of Diamonds,)),
    ("cards!(Ace of Spades, Ace of Clubs)", &[48,51], &cards!(Ace of Spades, Ace of Clubs)),
    ("cards!(Ace of Hearts, Two of Spades)", &[49,0], &cards!(Ace of Hearts, Two of Spades)),
    ("cards!(Ace of Hearts, Two of Hearts,)", &[49,1], &cards!(Ace of Hearts, Two of Hearts,)),
    ("cards!(Ace of Hearts, Two of Diamonds)", &[49,2], &cards!(Ace of Hearts, Two of Diamonds)),
    ("cards!(Ace of Hearts, Two of Clubs,)", &[49,3], &cards!(Ace of Hearts, Two of Clubs,)),
    ("cards!(Ace of Hearts, Three of Spades)", &[49,4], &cards!(Ace of Hearts, Three of Spades)),
    ("cards!(Ace of Hearts, Three of Hearts,)", &[49,5], &cards!(Ace of Hearts, Three of Hearts,)),
    ("cards!(Ace of Hearts, Three of Diamonds)", &[49,6], &cards!(Ace of Hearts, Three of Diamonds)),
    ("cards!(Ace of Hearts, Three of Clubs,)", &[49,7], &cards!(Ace of Hearts, Three of Clubs,)),
    ("cards!(Ace of Hearts, Four of Spades)", &[49,8], &cards!(Ace of Hearts, Four of Spades)),
    ("cards!(Ace of Hearts, Four of Hearts,)", &[49,9], &cards!(Ace of Hearts, Four of Hearts,)),
    ("cards!(Ace of Hearts, Four of Diamonds)", &[49,10], &cards!(Ace of Hearts, Four of Diamonds)),
    ("cards!(Ace of Hearts, Four of Clubs,)", &[49,11], &cards!(Ace of Hearts, Four of Clubs,)),
    ("cards!(Ace of Hearts, Five of Spades)", &[49,12], &cards!(Ace of Hearts, Five of Spades)),
    ("cards!(Ace of Hearts, Five of Hearts,)", &[49,13], &cards!(Ace of Hearts, Five of Hearts,)),
    ("cards!(Ace of Hearts, Five of Diamonds)", &[49,14], &cards!(Ace of Hearts, Five of Diamonds)),
    ("cards!(Ace of Hearts, Five of Clubs,)", &[49,15], &cards!(Ace of Hearts, Five of Clubs,)),
    ("cards!(Ace of Hearts, Six of Spades)", &[49,16], &cards!(Ace of Hearts, Six of Spades)),
    ("cards!(Ace of Hearts, Six of Hearts,)", &[49,17], &cards!(Ace of Hearts, Six of Hearts,)),
    ("cards!(Ace of Hearts, Six of Diamonds)", &[49,18], &cards!(Ace of Hearts, Six of Diamonds)),
    ("cards!(Ace of Hearts, Six of Clubs,)", &[49,19], &cards!(Ace of Hearts, Six of Clubs,)),
    ("cards!(Ace of Hearts, Seven of Spades)", &[49,20], &cards!(Ace of Hearts, Seven of Spades)),
    ("cards!(Ace of Hearts, Seven of Hearts,)", &[49,21], &cards!(Ace of Hearts, Seven of Hearts,)),
    ("cards!(Ace of Hearts, Seven of Diamonds)", &[49,22], &cards!(Ace of Hearts, Seven of Diamonds)),
    ("cards!(Ace of Hearts, Seven of Clubs,)", &[49,23], &cards!(Ace of Hearts, Seven of Clubs,)),
    ("cards!(Ace of Hearts, Eight of Spades)", &[49,24], &cards!(Ace of Hearts, Eight of Spades)),
    ("cards!(Ace of Hearts, Eight of Hearts,)", &[49,25], &cards!(Ace of Hearts, Eight of Hearts,)),
    ("cards!(Ace of Hearts, Eight of Diamonds)", &[49,26], &cards!(Ace of Hearts, Eight of Diamonds)),
    ("cards!(Ace of Hearts, Eight of Clubs,)", &[49,27], &cards!(Ace of Hearts, Eight of Clubs,)),
    ("cards!(Ace of Hearts, Nine of Spades)", &[49,28], &cards!(Ace of Hearts, Nine of Spades)),
    ("cards!(Ace of Hearts, Nine of Hearts,)", &[49,29], &cards!(Ace of Hearts, Nine of Hearts,)),
    ("cards!(Ace of Hearts, Nine of Diamonds)", &[49,30], &cards!(Ace of Hearts, Nine of Diamonds)),
    ("cards!(Ace of Hearts, Nine of Clubs,)", &[49,31], &cards!(Ace of Hearts, Nine of Clubs,)),
    ("cards!(Ace of Hearts, Ten of Spades)", &[49,32], &cards!(Ace of Hearts, Ten of Spades)),
    ("cards!(Ace of Hearts, Ten of Hearts,)", &[49,33], &cards!(Ace of Hearts, Ten of Hearts,)),
    ("cards!(Ace of Hearts, Ten of Diamonds)", &[49,34], &cards!(Ace of Hearts, Ten of Diamonds)),
    ("cards!(Ace of Hearts, Ten of Clubs,)", &[49,35], &cards!(Ace of Hearts, Ten of Clubs,)),
    ("cards!(Ace of Hearts, Jack of Spades)", &[49,36], &cards!(Ace of Hearts, Jack of Spades)),
    ("cards!(Ace of Hearts, Jack of Hearts,)", &[49,37], &cards!(Ace of Hearts, Jack of Hearts,)),
    ("cards!(Ace of Hearts, Jack of Diamonds)", &[49,38], &cards!(Ace of Hearts, Jack of Diamonds)),
    ("cards!(Ace of Hearts, Jack of Clubs,)", &[49,39], &cards!(Ace of Hearts, Jack of Clubs,)),
    ("cards!(Ace of Hearts, Queen of Spades)", &[49,40], &cards!(Ace of Hearts, Queen of Spades)),
    ("cards!(Ace of Hearts, Queen of Hearts,)", &[49,41], &cards!(Ace of Hearts, Queen of Hearts,)),
    ("cards!(Ace of Hearts, Queen of Diamonds)", &[49,42], &cards!(Ace of Hearts, Queen of Diamonds)),
    ("cards!(Ace of Hearts, Queen of Clubs,)", &[49,43], &cards!(Ace of Hearts, Queen of Clubs,)),
    ("cards!(Ace of Hearts, King of Spades)", &[49,44], &cards!(Ace of Hearts, King of Spades)),
    ("cards!(Ace of Hearts, King of Hearts,)", &[49,45], &cards!(Ace of Hearts, King of Hearts,)),
    ("cards!(Ace of Hearts, King of Diamonds)", &[49,46], &cards!(Ace of Hearts, King of Diamonds)),
    ("cards!(Ace of Hearts, King of Clubs,)", &[49,47], &cards!(Ace of Hearts, King of Clubs,)),
    ("cards!(Ace of Hearts, Ace of Spades)", &[49,48], &cards!(Ace of Hearts, Ace of Spades)),
    ("cards!(Ace of Hearts, Ace of Hearts,)", &[49,49], &cards!(Ace of Hearts, Ace of Hearts,)),
    ("cards!(Ace of Hearts, Ace of Diamonds)", &[49,50], &cards!(Ace of Hearts, Ace of Diamonds)),
    ("cards!(Ace of Hearts, Ace of Clubs,)", &[49,51], &cards!(Ace of Hearts, Ace of Clubs,)),
    ("cards!(Ace of Diamonds, Two of Spades,)", &[50,0], &cards!(Ace of Diamonds, Two of Spades,)),
    ("cards!(Ace of Diamonds, Two of Hearts)", &[50,1], &cards!(Ace of Diamonds, Two of Hearts)),
    ("cards!(Ace of Diamonds, Two of Diamonds,)", &[50,2], &cards!(Ace of Diamonds, Two of Diamonds,)),
    ("cards!(Ace of Diamonds, Two of Clubs)", &[50,3], &cards!(Ace of Diamonds, Two of Clubs)),
    ("cards!(Ace of Diamonds, Three of Spades,)", &[50,4], &cards!(Ace of Diamonds, Three of Spades,)),
    ("cards!(Ace of Diamonds, Three of Hearts)", &[50,5], &cards!(Ace of Diamonds, Three of Hearts)),
    ("cards!(Ace of Diamonds, Three of Diamonds,)", &[50,6], &cards!(Ace of Diamonds, Three of Diamonds,)),
    ("cards!(Ace of Diamonds, Three of Clubs)", &[50,7], &cards!(Ace of Diamonds, Three of Clubs)),
    ("cards!(Ace of Diamonds, Four of Spades,)", &[50,8], &cards!(Ace of Diamonds, Four of Spades,)),
    ("cards!(Ace of Diamonds, Four of Hearts)", &[50,9], &cards!(Ace of Diamonds, Four of Hearts)),
    ("cards!(Ace of Diamonds, Four of Diamonds,)", &[50,10], &cards!(Ace of Diamonds, Four of Diamonds,)),
    ("cards!(Ace of Diamonds, Four of Clubs)", &[50,11], &cards!(Ace of Diamonds, Four of Clubs)),
    ("cards!(Ace of Diamonds, Five of Spades,)", &[50,12], &cards!(Ace of Diamonds, Five of Spades,)),
    ("cards!(Ace of Diamonds, Five of Hearts)", &[50,13], &cards!(Ace of Diamonds, Five of Hearts)),
    ("cards!(Ace of Diamonds, Five of Diamonds,)", &[50,14], &cards!(Ace of Diamonds, Five of Diamonds,)),
    ("cards!(Ace of Diamonds, Five of Clubs)", &[50,15], &cards!(Ace of Diamonds, Five of Clubs)),
    ("cards!(Ace of Diamonds, Six of Spades,)", &[50,16], &cards!(Ace of Diamonds, Six of Spades,)),
    ("cards!(Ace of Diamonds, Six of Hearts)", &[50,17], &cards!(Ace of Diamonds, Six of Hearts)),
    ("cards!(Ace of Diamonds, Six of Diamonds,)", &[50,18], &cards!(Ace of Diamonds, Six of Diamonds,)),
    ("cards!(Ace of Diamonds, Six of Clubs)", &[50,19], &cards!(Ace of Diamonds, Six of Clubs)),
    ("cards!(Ace of Diamonds, Seven of Spades,)", &[50,20], &cards!(Ace of Diamonds, Seven of Spades,)),
    ("cards!(Ace of Diamonds, Seven of Hearts)", &[50,21], &cards!(Ace of Diamonds, Seven of Hearts)),
    ("cards!(Ace of Diamonds, Seven of Diamonds,)", &[50,22], &cards!(Ace of Diamonds, Seven of Diamonds,)),
    ("cards!(Ace of Diamonds, Seven of Clubs)", &[50,23], &cards!(Ace of Diamonds, Seven of Clubs)),
    ("cards!(Ace of Diamonds, Eight of Spades,)", &[50,24], &cards!(Ace of Diamonds, Eight of Spades,)),
    ("cards!(Ace of Diamonds, Eight of Hearts)", &[50,25], &cards!(Ace of Diamonds, Eight of Hearts)),
    ("cards!(Ace of Diamonds, Eight of Diamonds,)", &[50,26], &cards!(Ace of Diamonds, Eight of Diamonds,)),
    ("cards!(Ace of Diamonds, Eight of Clubs)", &[50,27], &cards!(Ace of Diamonds, Eight of Clubs)),
    ("cards!(Ace of Diamonds, Nine of Spades,)", &[50,28], &cards!(Ace of Diamonds, Nine of Spades,)),
    ("cards!(Ace of Diamonds, Nine of Hearts)", &[50,29], &cards!(Ace of Diamonds, Nine of Hearts)),
    ("cards!(Ace of Diamonds, Nine of Diamonds,)", &[50,30], &cards!(Ace of Diamonds, Nine of Diamonds,)),
    ("cards!(Ace of Diamonds, Nine of Clubs)", &[50,31], &cards!(Ace of Diamonds, Nine of Clubs)),
    ("cards!(Ace of Diamonds, Ten of Spades,)", &[50,32], &cards!(Ace of Diamonds, Ten of Spades,)),
    ("cards!(Ace of Diamonds, Ten of Hearts)", &[50,33], &cards!(Ace of Diamonds, Ten of Hearts)),
    ("cards!(Ace of Diamonds, Ten of Diamonds,)", &[50,34], &cards!(Ace of Diamonds, Ten of Diamonds,)),
    ("cards!(Ace of Diamonds, Ten of Clubs)", &[50,35], &cards!(Ace of Diamonds, Ten of Clubs)),
    ("cards!(Ace of Diamonds, Jack of Spades,)", &[50,36], &cards!(Ace of Diamonds, Jack of Spades,)),
    ("cards!(Ace of Diamonds, Jack of Hearts)", &[50,37], &cards!(Ace of Diamonds, Jack of Hearts)),
    ("cards!(Ace of Diamonds, Jack of Diamonds,)", &[50,38], &cards!(Ace of Diamonds, Jack of Diamonds,)),
    ("cards!(Ace of Diamonds, Jack of Clubs)", &[50,39], &cards!(Ace of Diamonds, Jack of Clubs)),
    ("cards!(Ace of Diamonds, Queen of Spades,)", &[50,40], &cards!(Ace of Diamonds, Queen of Spades,)),
    ("cards!(Ace of Diamonds, Queen of Hearts)", &[50,41], &cards!(Ace of Diamonds, Queen of Hearts)),
    ("cards!(Ace of Diamonds, Queen of Diamonds,)", &[50,42], &cards!(Ace of Diamonds, Queen of Diamonds,)),
    ("cards!(Ace of Diamonds, Queen of Clubs)", &[50,43], &cards!(Ace of Diamonds, Queen of Clubs)),
    ("cards!(Ace of Diamonds, King of Spades,)", &[50,44], &cards!(Ace of Diamonds, King of Spades,)),
    ("cards!(Ace of Diamonds, King of Hearts)", &[50,45], &cards!(Ace of Diamonds, King of Hearts)),
    ("cards!(Ace of Diamonds, King of Diamonds,)", &[50,46], &cards!(Ace of Diamonds, King of Diamonds,)),
    ("cards!(Ace of Diamonds, King of Clubs)", &[50,47], &cards!(Ace of Diamonds, King of Clubs)),
    ("cards!(Ace of Diamonds, Ace of Spades,)", &[50,48], &cards!(Ace of Diamonds, Ace of Spades,)),
    ("cards!(Ace of Diamonds, Ace of Hearts)", &[50,49], &cards!(Ace of Diamonds, Ace of Hearts)),
    ("cards!(Ace of Diamonds, Ace of Diamonds,)", &[50,50], &cards!(Ace of Diamonds, Ace of Diamonds,)),
    ("cards!(Ace of Diamonds, Ace of Clubs)", &[50,51], &cards!(Ace of Diamonds, Ace of Clubs)),
    ("cards!(Ace of Clubs, Two of Spades)", &[51,0], &cards!(Ace of Clubs, Two of Spades)),
    ("cards!(Ace of Clubs, Two of Hearts,)", &[51,1], &cards!(Ace of Clubs, Two of Hearts,)),
    ("cards!(Ace of Clubs, Two of Diamonds)", &[51,2], &cards!(Ace of Clubs, Two of Diamonds)),
    ("cards!(Ace of Clubs, Two of Clubs,)", &[51,3], &cards!(Ace of Clubs, Two of Clubs,)),
    ("cards!(Ace of Clubs, Three of Spades)", &[51,4], &cards!(Ace of Clubs, Three of Spades)),
    ("cards!(Ace of Clubs, Three of Hearts,)", &[51,5], &cards!(Ace of Clubs, Three of Hearts,)),
    ("cards!(Ace of Clubs, Three of Diamonds)", &[51,6], &cards!(Ace of Clubs, Three of Diamonds)),
    ("cards!(Ace of Clubs, Three of Clubs,)", &[51,7], &cards!(Ace of Clubs, Three of Clubs,)),
    ("cards!(Ace of Clubs, Four of Spades)", &[51,8], &cards!(Ace of Clubs, Four of Spades)),
    ("cards!(Ace of Clubs, Four of Hearts,)", &[51,9], &cards!(Ace of Clubs, Four of Hearts,)),
    ("cards!(Ace of Clubs, Four of Diamonds)", &[51,10], &cards!(Ace of Clubs, Four of Diamonds)),
    ("cards!(Ace of Clubs, Four of Clubs,)", &[51,11], &cards!(Ace of Clubs, Four of Clubs,)),
    ("cards!(Ace of Clubs, Five of Spades)", &[51,12], &cards!(Ace of Clubs, Five of Spades)),
    ("cards!(Ace of Clubs, Five of Hearts,)", &[51,13], &cards!(Ace of Clubs, Five of Hearts,)),
    ("cards!(Ace of Clubs, Five of Diamonds)", &[51,14], &cards!(Ace of Clubs, Five of Diamonds)),
    ("cards!(Ace of Clubs, Five of Clubs,)", &[51,15], &cards!(Ace of Clubs, Five of Clubs,)),
    ("cards!(Ace of Clubs, Six of Spades)", &[51,16], &cards!(Ace of Clubs, Six of Spades)),
    ("cards!(Ace of Clubs, Six of Hearts,)", &[51,17], &cards!(Ace of Clubs, Six of Hearts,)),
    ("cards!(Ace of Clubs, Six of Diamonds)", &[51,18], &cards!(Ace of Clubs, Six of Diamonds)),
    ("cards!(Ace of Clubs, Six of Clubs,)", &[51,19], &cards!(Ace of Clubs, Six of Clubs,)),
    ("cards!(Ace of Clubs, Seven of Spades)", &[51,20], &cards!(Ace of Clubs, Seven of Spades)),
    ("cards!(Ace of Clubs, Seven of Hearts,)", &[51,21], &cards!(Ace of Clubs, Seven of Hearts,)),
    ("cards!(Ace of Clubs, Seven of Diamonds)", &[51,22], &cards!(Ace of Clubs, Seven of Diamonds)),
    ("cards!(Ace of Clubs, Seven of Clubs,)", &[51,23], &cards!(Ace of Clubs, Seven of Clubs,)),
    ("cards!(Ace of Clubs, Eight of Spades)", &[51,24], &cards!(Ace of Clubs, Eight of Spades)),
    ("cards!(Ace of Clubs, Eight of Hearts,)", &[51,25], &cards!(Ace of Clubs, Eight of Hearts,)),
    ("cards!(Ace of Clubs, Eight of Diamonds)", &[51,26], &cards!(Ace of Clubs, Eight of Diamonds)),
    ("cards!(Ace of Clubs, Eight of Clubs,)", &[51,27], &cards!(Ace of Clubs, Eight of Clubs,)),
    ("cards!(Ace of Clubs, Nine of Spades)", &[51,28], &cards!(Ace of Clubs, Nine of Spades)),
    ("cards!(Ace of Clubs, Nine of Hearts,)", &[51,29], &cards!(Ace of Clubs, Nine of Hearts,)),
    ("cards!(Ace of Clubs, Nine of Diamonds)", &[51,30], &cards!(Ace of Clubs, Nine of Diamonds)),
    ("cards!(Ace of Clubs, Nine of Clubs,)", &[51,31], &cards!(Ace of Clubs, Nine of Clubs,)),
    ("cards!(Ace of Clubs, Ten of Spades)", &[51,32], &cards!(Ace of Clubs, Ten of Spades)),
    ("cards!(Ace of Clubs, Ten of Hearts,)", &[51,33], &cards!(Ace of Clubs, Ten of Hearts,)),
    ("cards!(Ace of Clubs, Ten of Diamonds)", &[51,34], &cards!(Ace of Clubs, Ten of Diamonds)),
    ("cards!(Ace of Clubs, Ten of Clubs,)", &[51,35], &cards!(Ace of Clubs, Ten of Clubs,)),
    ("cards!(Ace of Clubs, Jack of Spades)", &[51,36], &cards!(Ace of Clubs, Jack of Spades)),
    ("cards!(Ace of Clubs, Jack of Hearts,)", &[51,37], &cards!(Ace of Clubs, Jack of Hearts,)),
    ("cards!(Ace of Clubs, Jack of Diamonds)", &[51,38], &cards!(Ace of Clubs, Jack of Diamonds)),
    ("cards!(Ace of Clubs, Jack of Clubs,)", &[51,39], &cards!(Ace of Clubs, Jack of Clubs,)),
    ("cards!(Ace of Clubs, Queen of Spades)", &[51,40], &cards!(Ace of Clubs, Queen of Spades)),
    ("cards!(Ace of Clubs, Queen of Hearts,)", &[51,41], &cards!(Ace of Clubs, Queen of Hearts,)),
    ("cards!(Ace of Clubs, Queen of Diamonds)", &[51,42], &cards!(Ace of Clubs, Queen of Diamonds)),
    ("cards!(Ace of Clubs, Queen of Clubs,)", &[51,43], &cards!(Ace of Clubs, Queen of Clubs,)),
    ("cards!(Ace of Clubs, King of Spades)", &[51,44], &cards!(Ace of Clubs, King of Spades)),
    ("cards!(Ace of Clubs, King of Hearts,)", &[51,45], &cards!(Ace of Clubs, King of Hearts,)),
    ("cards!(Ace of Clubs, King of Diamonds)", &[51,46], &cards!(Ace of Clubs, King of Diamonds)),
    ("cards!(Ace of Clubs, King of Clubs,)", &[51,47], &cards!(Ace of Clubs, King of Clubs,)),
    ("cards!(Ace of Clubs, Ace of Spades)", &[51,48], &cards!(Ace of Clubs, Ace of Spades)),
    ("cards!(Ace of Clubs, Ace of Hearts,)", &[51,49], &cards!(Ace of Clubs, Ace of Hearts,)),
    ("cards!(Ace of Clubs, Ace of Diamonds)", &[51,50], &cards!(Ace of Clubs, Ace of Diamonds)),
    ("cards!(Ace of Clubs, Ace of Clubs,)", &[51,51], &cards!(Ace of Clubs, Ace of Clubs,)),
];

pub static LISTS: &[Const] = &[
    ("cards!(Two, Hearts)", &[1], &cards!(Two, Hearts)),
    ("cards!(Two, Hearts;)", &[1], &cards!(Two, Hearts;)),
    ("cards!(Ace, Diamonds)", &[50], &cards!(Ace, Diamonds)),
    ("cards!(Ace, Diamonds;)", &[50], &cards!(Ace, Diamonds;)),
    ("cards!(Three, Clubs)", &[7], &cards!(Three, Clubs)),
    ("cards!(Three, Clubs;)", &[7], &cards!(Three, Clubs;)),
    ("cards!(Two, Diamonds; Two, Clubs)", &[2,3], &cards!(Two, Diamonds; Two, Clubs)),
    ("cards!(Two, Diamonds; Two, Clubs;)", &[2,3], &cards!(Two, Diamonds; Two, Clubs;)),
    ("cards!(Ace, Hearts; Ace, Spades)", &[49,48], &cards!(Ace, Hearts; Ace, Spades)),
    ("cards!(Ace, Hearts; Ace, Spades;)", &[49,48], &cards!(Ace, Hearts; Ace, Spades;)),
    ("cards!(Five, Diamonds; Eight, Hearts)", &[14,25], &cards!(Five, Diamonds; Eight, Hearts)),
    ("cards!(Five, Diamonds; Eight, Hearts;)", &[14,25], &cards!(Five, Diamonds; Eight, Hearts;)),
    ("cards!(Two, Clubs; Three, Spades; Three, Hearts)", &[3,4,5], &cards!(Two, Clubs; Three, Spades; Three, Hearts)),
    ("cards!(Two, Clubs; Three, Spades; Three, Hearts;)", &[3,4,5], &cards!(Two, Clubs; Three, Spades; Three, Hearts;)),
    ("cards!(Ace, Spades; King, Clubs; King, Diamonds)", &[48,47,46], &cards!(Ace, Spades; King, Clubs; King, Diamonds)),
    ("cards!(Ace, Spades; King, Clubs; King, Diamonds;)", &[48,47,46], &cards!(Ace, Spades; King, Clubs; King, Diamonds;)),
    ("cards!(Seven, Hearts; Ten, Spades; Queen, Clubs)", &[21,32,43], &cards!(Seven, Hearts; Ten, Spades; Queen, Clubs)),
    ("cards!(Seven, Hearts; Ten, Spades; Queen, Clubs;)", &[21,32,43], &cards!(Seven, Hearts; Ten, Spades; Queen, Clubs;)),
    ("cards!(Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs)", &[4,5,6,7], &cards!(Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs)),
    ("cards!(Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs;)", &[4,5,6,7], &cards!(Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs;)),
    ("cards!(King, Clubs; King, Diamonds; King, Hearts; King, Spades)", &[47,46,45,44], &cards!(King, Clubs; King, Diamonds; King, Hearts; King, Spades)),
    ("cards!(King, Clubs; King, Diamonds; King, Hearts; King, Spades;)", &[47,46,45,44], &cards!(King, Clubs; King, Diamonds; King, Hearts; King, Spades;)),
    ("cards!(Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts)", &[28,39,50,9], &cards!(Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts)),
    ("cards!(Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts;)", &[28,39,50,9], &cards!(Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts;)),
    ("cards!(Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts)", &[5,6,7,8,9], &cards!(Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts)),
    ("cards!(Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts;)", &[5,6,7,8,9], &cards!(Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts;)),
    ("cards!(King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds)", &[46,45,44,43,42], &cards!(King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds)),
    ("cards!(King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds;)", &[46,45,44,43,42], &cards!(King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds;)),
    ("cards!(Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs)", &[35,46,5,16,27], &cards!(Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs)),
    ("cards!(Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs;)", &[35,46,5,16,27], &cards!(Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs;)),
    ("cards!(Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs)", &[6,7,8,9,10,11], &cards!(Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs)),
    ("cards!(Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs;)", &[6,7,8,9,10,11], &cards!(Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs;)),
    ("cards!(King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades)", &[45,44,43,42,41,40], &cards!(King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades)),
    ("cards!(King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades;)", &[45,44,43,42,41,40], &cards!(King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades;)),
    ("cards!(Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts)", &[42,1,12,23,34,45], &cards!(Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts)),
    ("cards!(Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts;)", &[42,1,12,23,34,45], &cards!(Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts;)),
    ("cards!(Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts)", &[7,8,9,10,11,12,13], &cards!(Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts)),
    ("cards!(Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts;)", &[7,8,9,10,11,12,13], &cards!(Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts;)),
    ("cards!(King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds)", &[44,43,42,41,40,39,38], &cards!(King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds)),
    ("cards!(King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds;)", &[44,43,42,41,40,39,38], &cards!(King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds;)),
    ("cards!(Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs)", &[49,8,19,30,41,0,11], &cards!(Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs)),
    ("cards!(Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs;)", &[49,8,19,30,41,0,11], &cards!(Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs;)),
    ("cards!(Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs)", &[8,9,10,11,12,13,14,15], &cards!(Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs)),
    ("cards!(Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs;)", &[8,9,10,11,12,13,14,15], &cards!(Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs;)),
    ("cards!(Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades)", &[43,42,41,40,39,38,37,36], &cards!(Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades)),
    ("cards!(Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades;)", &[43,42,41,40,39,38,37,36], &cards!(Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades;)),
    ("cards!(Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts)", &[4,15,26,37,48,7,18,29], &cards!(Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts)),
    ("cards!(Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts;)", &[4,15,26,37,48,7,18,29], &cards!(Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts;)),
    ("cards!(Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts)", &[9,10,11,12,13,14,15,16,17], &cards!(Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts)),
    ("cards!(Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts;)", &[9,10,11,12,13,14,15,16,17], &cards!(Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts;)),
    ("cards!(Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds)", &[42,41,40,39,38,37,36,35,34], &cards!(Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds)),
    ("cards!(Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds;)", &[42,41,40,39,38,37,36,35,34], &cards!(Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds;)),
    ("cards!(Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs)", &[11,22,33,44,3,14,25,36,47], &cards!(Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs)),
    ("cards!(Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs;)", &[11,22,33,44,3,14,25,36,47], &cards!(Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs;)),
    ("cards!(Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs)", &[10,11,12,13,14,15,16,17,18,19], &cards!(Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs)),
    ("cards!(Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs;)", &[10,11,12,13,14,15,16,17,18,19], &cards!(Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs;)),
    ("cards!(Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades)", &[41,40,39,38,37,36,35,34,33,32], &cards!(Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades)),
    ("cards!(Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades;)", &[41,40,39,38,37,36,35,34,33,32], &cards!(Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades;)),
    ("cards!(Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts)", &[18,29,40,51,10,21,32,43,2,13], &cards!(Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts)),
    ("cards!(Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts;)", &[18,29,40,51,10,21,32,43,2,13], &cards!(Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts;)),
    ("cards!(Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts)", &[11,12,13,14,15,16,17,18,19,20,21], &cards!(Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts)),
    ("cards!(Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts;)", &[11,12,13,14,15,16,17,18,19,20,21], &cards!(Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts;)),
    ("cards!(Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds)", &[40,39,38,37,36,35,34,33,32,31,30], &cards!(Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds)),
    ("cards!(Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds;)", &[40,39,38,37,36,35,34,33,32,31,30], &cards!(Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds;)),
    ("cards!(Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs)", &[25,36,47,6,17,28,39,50,9,20,31], &cards!(Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs)),
    ("cards!(Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs;)", &[25,36,47,6,17,28,39,50,9,20,31], &cards!(Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs;)),
    ("cards!(Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs)", &[12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs)),
    ("cards!(Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs;)", &[12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs;)),
    ("cards!(Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades)", &[39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades)),
    ("cards!(Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades;)", &[39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades;)),
    ("cards!(Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts)", &[32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts)),
    ("cards!(Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts;)", &[32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts;)),
    ("cards!(Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts)", &[13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts)),
    ("cards!(Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts;)", &[13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts;)),
    ("cards!(Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds)", &[38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds)),
    ("cards!(Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds;)", &[38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds;)),
    ("cards!(Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs)", &[39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs)),
    ("cards!(Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs;)", &[39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs;)),
    ("cards!(Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs)", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs)),
    ("cards!(Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs;)", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs;)),
    ("cards!(Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades)", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades)),
    ("cards!(Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades;)", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades;)),
    ("cards!(King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts)", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts)),
    ("cards!(King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts;)", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts;)),
    ("cards!(Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts)", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts)),
    ("cards!(Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts;)", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts;)),
    ("cards!(Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds)", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds)),
    ("cards!(Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds;)", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds;)),
    ("cards!(Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs)", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs)),
    ("cards!(Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs;)", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs;)),
    ("cards!(Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs)", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs)),
    ("cards!(Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs;)", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs;)),
    ("cards!(Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades)", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades)),
    ("cards!(Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades;)", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades;)),
    ("cards!(Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts)", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts)),
    ("cards!(Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts;)", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts;)),
    ("cards!(Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts)", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts)),
    ("cards!(Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts;)", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts;)),
    ("cards!(Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds)", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds)),
    ("cards!(Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds;)", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds;)),
    ("cards!(Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs)", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs)),
    ("cards!(Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs;)", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs;)),
    ("cards!(Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs)", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs)),
    ("cards!(Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs;)", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs;)),
    ("cards!(Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades)", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades)),
    ("cards!(Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades;)", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades;)),
    ("cards!(Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts)", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts)),
    ("cards!(Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts;)", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts;)),
    ("cards!(Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts)", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts)),
    ("cards!(Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts;)", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts;)),
    ("cards!(Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds)", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds)),
    ("cards!(Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds;)", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds;)),
    ("cards!(Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs)", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs)),
    ("cards!(Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs;)", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs;)),
    ("cards!(Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs)", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs)),
    ("cards!(Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs;)", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs;)),
    ("cards!(Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades)", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades)),
    ("cards!(Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades;)", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades;)),
    ("cards!(Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts)", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts)),
    ("cards!(Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts;)", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts;)),
    ("cards!(Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts)", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts)),
    ("cards!(Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts;)", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts;)),
    ("cards!(Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds)", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds)),
    ("cards!(Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds;)", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds;)),
    ("cards!(Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs)", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs)),
    ("cards!(Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs;)", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs;)),
    ("cards!(Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs)", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs)),
    ("cards!(Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs;)", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs;)),
    ("cards!(Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades)", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades)),
    ("cards!(Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades;)", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades;)),
    ("cards!(Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts)", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts)),
    ("cards!(Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts;)", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts;)),
    ("cards!(Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts)", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts)),
    ("cards!(Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts;)", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts;)),
    ("cards!(Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds)", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds)),
    ("cards!(Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds;)", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds;)),
    ("cards!(Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs)", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs)),
    ("cards!(Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs;)", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs;)),
    ("cards!(Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs)", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs)),
    ("cards!(Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs;)", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs;)),
    ("cards!(Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades)", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades)),
    ("cards!(Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades;)", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades;)),
    ("cards!(Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts)", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts)),
    ("cards!(Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts;)", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts;)),
    ("cards!(Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts)", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts)),
    ("cards!(Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts;)", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts;)),
    ("cards!(Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds)", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds)),
    ("cards!(Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds;)", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds;)),
    ("cards!(Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs)", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs)),
    ("cards!(Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs;)", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs;)),
    ("cards!(Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs)", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs)),
    ("cards!(Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs;)", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs;)),
    ("cards!(Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades)", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades)),
    ("cards!(Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades;)", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades;)),
    ("cards!(Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts)", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts)),
    ("cards!(Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts;)", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts;)),
    ("cards!(Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts)", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], &cards!(Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts)),
    ("cards!(Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts;)", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], &cards!(Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts;)),
    ("cards!(Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds)", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], &cards!(Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds)),
    ("cards!(Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds;)", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], &cards!(Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds;)),
    ("cards!(Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs)", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &cards!(Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs)),
    ("cards!(Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs;)", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &cards!(Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs;)),
    ("cards!(Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs)", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], &cards!(Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs)),
    ("cards!(Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs;)", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], &cards!(Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs;)),
    ("cards!(Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades)", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], &cards!(Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades)),
    ("cards!(Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades;)", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], &cards!(Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades;)),
    ("cards!(Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts)", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], &cards!(Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts)),
    ("cards!(Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts;)", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], &cards!(Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts;)),
    ("cards!(Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts)", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], &cards!(Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts)),
    ("cards!(Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts;)", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], &cards!(Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts;)),
    ("cards!(Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds)", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &cards!(Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds)),
    ("cards!(Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds;)", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &cards!(Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds;)),
    ("cards!(King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs)", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], &cards!(King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs)),
    ("cards!(King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs;)", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], &cards!(King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs;)),
    ("cards!(Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs)", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], &cards!(Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs)),
    ("cards!(Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs;)", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], &cards!(Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs;)),
    ("cards!(Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades)", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], &cards!(Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades)),
    ("cards!(Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades;)", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], &cards!(Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades;)),
    ("cards!(Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts)", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], &cards!(Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts)),
    ("cards!(Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts;)", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], &cards!(Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts;)),
    ("cards!(Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts)", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &cards!(Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts)),
    ("cards!(Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts;)", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &cards!(Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts;)),
    ("cards!(Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds)", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], &cards!(Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds)),
    ("cards!(Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds;)", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], &cards!(Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds;)),
    ("cards!(Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs)", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], &cards!(Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs)),
    ("cards!(Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs;)", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], &cards!(Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs;)),
    ("cards!(Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs)", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], &cards!(Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs)),
    ("cards!(Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs;)", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], &cards!(Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs;)),
    ("cards!(Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades)", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], &cards!(Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades)),
    ("cards!(Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades;)", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], &cards!(Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades;)),
    ("cards!(Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts)", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &cards!(Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts)),
    ("cards!(Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts;)", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &cards!(Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts;)),
    ("cards!(Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts)", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], &cards!(Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts)),
    ("cards!(Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts;)", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], &cards!(Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts;)),
    ("cards!(Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds)", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], &cards!(Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds)),
    ("cards!(Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds;)", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], &cards!(Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds;)),
    ("cards!(Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs)", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], &cards!(Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs)),
    ("cards!(Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs;)", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], &cards!(Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs;)),
    ("cards!(Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs)", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], &cards!(Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs)),
    ("cards!(Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs;)", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], &cards!(Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs;)),
    ("cards!(Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades)", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &cards!(Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades)),
    ("cards!(Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades;)", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &cards!(Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades;)),
    ("cards!(Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts)", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], &cards!(Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts)),
    ("cards!(Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts;)", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], &cards!(Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts;)),
    ("cards!(Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts)", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], &cards!(Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts)),
    ("cards!(Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts;)", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], &cards!(Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts;)),
    ("cards!(Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds)", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], &cards!(Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds)),
    ("cards!(Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds;)", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], &cards!(Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds;)),
    ("cards!(Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs)", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], &cards!(Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs)),
    ("cards!(Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs;)", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], &cards!(Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs;)),
    ("cards!(Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs)", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &cards!(Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs)),
    ("cards!(Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs;)", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &cards!(Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs;)),
    ("cards!(Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades)", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], &cards!(Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades)),
    ("cards!(Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades;)", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], &cards!(Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades;)),
    ("cards!(King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts)", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], &cards!(King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts)),
    ("cards!(King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts;)", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], &cards!(King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts;)),
    ("cards!(Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts)", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], &cards!(Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts)),
    ("cards!(Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts;)", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], &cards!(Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts;)),
    ("cards!(Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds)", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], &cards!(Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds)),
    ("cards!(Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds;)", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], &cards!(Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds;)),
    ("cards!(Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs)", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &cards!(Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs)),
    ("cards!(Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs;)", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &cards!(Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs;)),
    ("cards!(Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs)", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs)),
    ("cards!(Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs;)", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs;)),
    ("cards!(Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades)", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades)),
    ("cards!(Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades;)", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades;)),
    ("cards!(Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts)", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts)),
    ("cards!(Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts;)", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts;)),
    ("cards!(Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts)", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts)),
    ("cards!(Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts;)", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts;)),
    ("cards!(Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds)", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds)),
    ("cards!(Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds;)", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds;)),
    ("cards!(Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs)", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs)),
    ("cards!(Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs;)", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs;)),
    ("cards!(Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs)", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs)),
    ("cards!(Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs;)", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs;)),
    ("cards!(Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades)", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades)),
    ("cards!(Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades;)", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades;)),
    ("cards!(Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts)", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts)),
    ("cards!(Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts;)", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts;)),
    ("cards!(Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts)", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts)),
    ("cards!(Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts;)", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts;)),
    ("cards!(Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds)", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds)),
    ("cards!(Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds;)", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds;)),
    ("cards!(Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs)", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs)),
    ("cards!(Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs;)", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs;)),
    ("cards!(Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs)", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs)),
    ("cards!(Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs;)", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs;)),
    ("cards!(Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades)", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades)),
    ("cards!(Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades;)", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades;)),
    ("cards!(Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts)", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts)),
    ("cards!(Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts;)", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts;)),
    ("cards!(Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts)", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts)),
    ("cards!(Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts;)", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts;)),
    ("cards!(Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds)", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds)),
    ("cards!(Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds;)", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds;)),
    ("cards!(Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs)", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs)),
    ("cards!(Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs;)", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs;)),
    ("cards!(King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs)", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs)),
    ("cards!(King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs;)", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs;)),
    ("cards!(Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades)", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades)),
    ("cards!(Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades;)", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades;)),
    ("cards!(Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts)", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts)),
    ("cards!(Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts;)", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts;)),
    ("cards!(King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts)", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts)),
    ("cards!(King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts;)", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts;)),
    ("cards!(Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds)", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds)),
    ("cards!(Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds;)", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds;)),
    ("cards!(Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs)", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs)),
    ("cards!(Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs;)", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs;)),
    ("cards!(King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs)", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs)),
    ("cards!(King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs;)", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs;)),
    ("cards!(Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades)", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades)),
    ("cards!(Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades;)", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades;)),
    ("cards!(Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts)", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts)),
    ("cards!(Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts;)", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts;)),
    ("cards!(King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts)", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts)),
    ("cards!(King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts;)", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts;)),
    ("cards!(Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds)", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds)),
    ("cards!(Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds;)", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds;)),
    ("cards!(Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs)", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs)),
    ("cards!(Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs;)", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs;)),
    ("cards!(Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs)", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs)),
    ("cards!(Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs;)", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs;)),
    ("cards!(Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades)", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades)),
    ("cards!(Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades;)", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades;)),
    ("cards!(Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts)", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts)),
    ("cards!(Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts;)", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts;)),
    ("cards!(Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts)", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts)),
    ("cards!(Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts;)", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts;)),
    ("cards!(Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds)", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds)),
    ("cards!(Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds;)", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds;)),
    ("cards!(Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs)", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs)),
    ("cards!(Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs;)", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs;)),
    ("cards!(Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs)", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs)),
    ("cards!(Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs;)", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs;)),
    ("cards!(Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades)", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades)),
    ("cards!(Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades;)", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades;)),
    ("cards!(Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts)", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts)),
    ("cards!(Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts;)", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts;)),
    ("cards!(Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts)", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts)),
    ("cards!(Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts;)", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts;)),
    ("cards!(Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds)", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds)),
    ("cards!(Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds;)", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds;)),
    ("cards!(King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs)", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs)),
    ("cards!(King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs;)", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs;)),
    ("cards!(Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs)", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs)),
    ("cards!(Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs;)", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs;)),
    ("cards!(Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades)", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades)),
    ("cards!(Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades;)", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades;)),
    ("cards!(Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts)", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts)),
    ("cards!(Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts;)", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts;)),
    ("cards!(Two of Hearts)", &[1], &cards!(Two of Hearts)),
    ("cards!(Two of Hearts,)", &[1], &cards!(Two of Hearts,)),
    ("cards!(Ace of Diamonds)", &[50], &cards!(Ace of Diamonds)),
    ("cards!(Ace of Diamonds,)", &[50], &cards!(Ace of Diamonds,)),
    ("cards!(Three of Clubs)", &[7], &cards!(Three of Clubs)),
    ("cards!(Three of Clubs,)", &[7], &cards!(Three of Clubs,)),
    ("cards!(Two of Diamonds, Two of Clubs)", &[2,3], &cards!(Two of Diamonds, Two of Clubs)),
    ("cards!(Two of Diamonds, Two of Clubs,)", &[2,3], &cards!(Two of Diamonds, Two of Clubs,)),
    ("cards!(Ace of Hearts, Ace of Spades)", &[49,48], &cards!(Ace of Hearts, Ace of Spades)),
    ("cards!(Ace of Hearts, Ace of Spades,)", &[49,48], &cards!(Ace of Hearts, Ace of Spades,)),
    ("cards!(Five of Diamonds, Eight of Hearts)", &[14,25], &cards!(Five of Diamonds, Eight of Hearts)),
    ("cards!(Five of Diamonds, Eight of Hearts,)", &[14,25], &cards!(Five of Diamonds, Eight of Hearts,)),
    ("cards!(Two of Clubs, Three of Spades, Three of Hearts)", &[3,4,5], &cards!(Two of Clubs, Three of Spades, Three of Hearts)),
    ("cards!(Two of Clubs, Three of Spades, Three of Hearts,)", &[3,4,5], &cards!(Two of Clubs, Three of Spades, Three of Hearts,)),
    ("cards!(Ace of Spades, King of Clubs, King of Diamonds)", &[48,47,46], &cards!(Ace of Spades, King of Clubs, King of Diamonds)),
    ("cards!(Ace of Spades, King of Clubs, King of Diamonds,)", &[48,47,46], &cards!(Ace of Spades, King of Clubs, King of Diamonds,)),
    ("cards!(Seven of Hearts, Ten of Spades, Queen of Clubs)", &[21,32,43], &cards!(Seven of Hearts, Ten of Spades, Queen of Clubs)),
    ("cards!(Seven of Hearts, Ten of Spades, Queen of Clubs,)", &[21,32,43], &cards!(Seven of Hearts, Ten of Spades, Queen of Clubs,)),
    ("cards!(Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs)", &[4,5,6,7], &cards!(Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs)),
    ("cards!(Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs,)", &[4,5,6,7], &cards!(Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs,)),
    ("cards!(King of Clubs, King of Diamonds, King of Hearts, King of Spades)", &[47,46,45,44], &cards!(King of Clubs, King of Diamonds, King of Hearts, King of Spades)),
    ("cards!(King of Clubs, King of Diamonds, King of Hearts, King of Spades,)", &[47,46,45,44], &cards!(King of Clubs, King of Diamonds, King of Hearts, King of Spades,)),
    ("cards!(Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts)", &[28,39,50,9], &cards!(Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts)),
    ("cards!(Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts,)", &[28,39,50,9], &cards!(Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts,)),
    ("cards!(Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts)", &[5,6,7,8,9], &cards!(Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts)),
    ("cards!(Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts,)", &[5,6,7,8,9], &cards!(Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts,)),
    ("cards!(King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds)", &[46,45,44,43,42], &cards!(King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds)),
    ("cards!(King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds,)", &[46,45,44,43,42], &cards!(King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds,)),
    ("cards!(Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs)", &[35,46,5,16,27], &cards!(Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs)),
    ("cards!(Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs,)", &[35,46,5,16,27], &cards!(Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs,)),
    ("cards!(Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs)", &[6,7,8,9,10,11], &cards!(Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs)),
    ("cards!(Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs,)", &[6,7,8,9,10,11], &cards!(Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs,)),
    ("cards!(King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades)", &[45,44,43,42,41,40], &cards!(King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades)),
    ("cards!(King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades,)", &[45,44,43,42,41,40], &cards!(King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades,)),
    ("cards!(Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts)", &[42,1,12,23,34,45], &cards!(Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts)),
    ("cards!(Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts,)", &[42,1,12,23,34,45], &cards!(Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts,)),
    ("cards!(Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts)", &[7,8,9,10,11,12,13], &cards!(Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts)),
    ("cards!(Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts,)", &[7,8,9,10,11,12,13], &cards!(Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts,)),
    ("cards!(King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds)", &[44,43,42,41,40,39,38], &cards!(King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds)),
    ("cards!(King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds,)", &[44,43,42,41,40,39,38], &cards!(King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds,)),
    ("cards!(Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs)", &[49,8,19,30,41,0,11], &cards!(Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs)),
    ("cards!(Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs,)", &[49,8,19,30,41,0,11], &cards!(Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs,)),
    ("cards!(Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs)", &[8,9,10,11,12,13,14,15], &cards!(Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs)),
    ("cards!(Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs,)", &[8,9,10,11,12,13,14,15], &cards!(Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs,)),
    ("cards!(Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades)", &[43,42,41,40,39,38,37,36], &cards!(Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades)),
    ("cards!(Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades,)", &[43,42,41,40,39,38,37,36], &cards!(Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades,)),
    ("cards!(Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts)", &[4,15,26,37,48,7,18,29], &cards!(Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts)),
    ("cards!(Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts,)", &[4,15,26,37,48,7,18,29], &cards!(Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts,)),
    ("cards!(Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts)", &[9,10,11,12,13,14,15,16,17], &cards!(Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts)),
    ("cards!(Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts,)", &[9,10,11,12,13,14,15,16,17], &cards!(Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts,)),
    ("cards!(Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds)", &[42,41,40,39,38,37,36,35,34], &cards!(Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds)),
    ("cards!(Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds,)", &[42,41,40,39,38,37,36,35,34], &cards!(Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds,)),
    ("cards!(Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs)", &[11,22,33,44,3,14,25,36,47], &cards!(Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs)),
    ("cards!(Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs,)", &[11,22,33,44,3,14,25,36,47], &cards!(Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs,)),
    ("cards!(Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs)", &[10,11,12,13,14,15,16,17,18,19], &cards!(Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs)),
    ("cards!(Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs,)", &[10,11,12,13,14,15,16,17,18,19], &cards!(Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs,)),
    ("cards!(Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades)", &[41,40,39,38,37,36,35,34,33,32], &cards!(Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades)),
    ("cards!(Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades,)", &[41,40,39,38,37,36,35,34,33,32], &cards!(Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades,)),
    ("cards!(Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts)", &[18,29,40,51,10,21,32,43,2,13], &cards!(Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts)),
    ("cards!(Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts,)", &[18,29,40,51,10,21,32,43,2,13], &cards!(Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts,)),
    ("cards!(Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts)", &[11,12,13,14,15,16,17,18,19,20,21], &cards!(Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts)),
    ("cards!(Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts,)", &[11,12,13,14,15,16,17,18,19,20,21], &cards!(Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts,)),
    ("cards!(Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds)", &[40,39,38,37,36,35,34,33,32,31,30], &cards!(Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds)),
    ("cards!(Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds,)", &[40,39,38,37,36,35,34,33,32,31,30], &cards!(Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds,)),
    ("cards!(Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs)", &[25,36,47,6,17,28,39,50,9,20,31], &cards!(Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs)),
    ("cards!(Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs,)", &[25,36,47,6,17,28,39,50,9,20,31], &cards!(Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs,)),
    ("cards!(Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs)", &[12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs)),
    ("cards!(Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs,)", &[12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs,)),
    ("cards!(Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades)", &[39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades)),
    ("cards!(Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades,)", &[39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades,)),
    ("cards!(Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts)", &[32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts)),
    ("cards!(Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts,)", &[32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts,)),
    ("cards!(Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts)", &[13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts)),
    ("cards!(Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts,)", &[13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts,)),
    ("cards!(Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds)", &[38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds)),
    ("cards!(Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds,)", &[38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds,)),
    ("cards!(Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs)", &[39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs)),
    ("cards!(Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs,)", &[39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs,)),
    ("cards!(Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs)", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs)),
    ("cards!(Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs,)", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs,)),
    ("cards!(Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades)", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades)),
    ("cards!(Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades,)", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades,)),
    ("cards!(King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts)", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts)),
    ("cards!(King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts,)", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts,)),
    ("cards!(Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts)", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts)),
    ("cards!(Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts,)", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts,)),
    ("cards!(Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds)", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds)),
    ("cards!(Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds,)", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds,)),
    ("cards!(Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs)", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs)),
    ("cards!(Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs,)", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs,)),
    ("cards!(Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs)", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs)),
    ("cards!(Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs,)", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs,)),
    ("cards!(Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades)", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades)),
    ("cards!(Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades,)", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades,)),
    ("cards!(Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts)", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts)),
    ("cards!(Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts,)", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts,)),
    ("cards!(Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts)", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts)),
    ("cards!(Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts,)", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts,)),
    ("cards!(Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds)", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds)),
    ("cards!(Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds,)", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds,)),
    ("cards!(Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs)", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs)),
    ("cards!(Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs,)", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs,)),
    ("cards!(Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs)", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs)),
    ("cards!(Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs,)", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs,)),
    ("cards!(Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades)", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades)),
    ("cards!(Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades,)", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades,)),
    ("cards!(Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts)", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts)),
    ("cards!(Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts,)", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts,)),
    ("cards!(Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts)", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts)),
    ("cards!(Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts,)", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts,)),
    ("cards!(Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds)", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds)),
    ("cards!(Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds,)", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds,)),
    ("cards!(Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs)", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs)),
    ("cards!(Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs,)", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs,)),
    ("cards!(Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs)", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs)),
    ("cards!(Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs,)", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs,)),
    ("cards!(Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades)", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades)),
    ("cards!(Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades,)", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades,)),
    ("cards!(Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts)", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts)),
    ("cards!(Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts,)", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts,)),
    ("cards!(Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts)", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts)),
    ("cards!(Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts,)", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts,)),
    ("cards!(Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds)", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds)),
    ("cards!(Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds,)", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds,)),
    ("cards!(Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs)", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs)),
    ("cards!(Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs,)", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs,)),
    ("cards!(Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs)", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs)),
    ("cards!(Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs,)", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs,)),
    ("cards!(Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades)", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades)),
    ("cards!(Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades,)", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades,)),
    ("cards!(Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts)", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts)),
    ("cards!(Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts,)", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts,)),
    ("cards!(Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts)", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts)),
    ("cards!(Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts,)", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts,)),
    ("cards!(Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds)", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds)),
    ("cards!(Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds,)", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds,)),
    ("cards!(Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs)", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs)),
    ("cards!(Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs,)", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs,)),
    ("cards!(Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs)", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs)),
    ("cards!(Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs,)", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs,)),
    ("cards!(Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades)", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades)),
    ("cards!(Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades,)", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades,)),
    ("cards!(Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts)", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts)),
    ("cards!(Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts,)", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts,)),
    ("cards!(Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts)", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts)),
    ("cards!(Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts,)", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts,)),
    ("cards!(Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds)", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds)),
    ("cards!(Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds,)", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds,)),
    ("cards!(Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs)", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs)),
    ("cards!(Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs,)", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs,)),
    ("cards!(Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs)", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs)),
    ("cards!(Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs,)", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs,)),
    ("cards!(Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades)", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades)),
    ("cards!(Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades,)", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades,)),
    ("cards!(Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts)", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts)),
    ("cards!(Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts,)", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts,)),
    ("cards!(Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts)", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], &cards!(Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts)),
    ("cards!(Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts,)", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], &cards!(Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts,)),
    ("cards!(Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds)", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], &cards!(Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds)),
    ("cards!(Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds,)", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], &cards!(Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds,)),
    ("cards!(Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs)", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &cards!(Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs)),
    ("cards!(Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs,)", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &cards!(Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs,)),
    ("cards!(Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs)", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], &cards!(Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs)),
    ("cards!(Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs,)", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], &cards!(Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs,)),
    ("cards!(Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades)", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], &cards!(Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades)),
    ("cards!(Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades,)", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], &cards!(Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades,)),
    ("cards!(Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts)", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], &cards!(Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts)),
    ("cards!(Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts,)", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], &cards!(Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts,)),
    ("cards!(Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts)", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], &cards!(Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts)),
    ("cards!(Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts,)", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], &cards!(Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts,)),
    ("cards!(Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds)", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &cards!(Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds)),
    ("cards!(Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds,)", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &cards!(Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds,)),
    ("cards!(King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs)", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], &cards!(King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs)),
    ("cards!(King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs,)", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], &cards!(King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs,)),
    ("cards!(Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs)", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], &cards!(Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs)),
    ("cards!(Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs,)", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], &cards!(Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs,)),
    ("cards!(Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades)", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], &cards!(Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades)),
    ("cards!(Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades,)", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], &cards!(Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades,)),
    ("cards!(Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts)", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], &cards!(Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts)),
    ("cards!(Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts,)", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], &cards!(Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts,)),
    ("cards!(Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts)", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &cards!(Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts)),
    ("cards!(Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts,)", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &cards!(Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts,)),
    ("cards!(Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds)", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], &cards!(Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds)),
    ("cards!(Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds,)", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], &cards!(Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds,)),
    ("cards!(Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs)", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], &cards!(Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs)),
    ("cards!(Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs,)", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], &cards!(Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs,)),
    ("cards!(Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs)", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], &cards!(Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs)),
    ("cards!(Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs,)", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], &cards!(Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs,)),
    ("cards!(Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades)", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], &cards!(Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades)),
    ("cards!(Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades,)", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], &cards!(Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades,)),
    ("cards!(Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts)", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &cards!(Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts)),
    ("cards!(Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts,)", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &cards!(Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts,)),
    ("cards!(Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts)", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], &cards!(Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts)),
    ("cards!(Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts,)", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], &cards!(Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts,)),
    ("cards!(Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds)", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], &cards!(Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds)),
    ("cards!(Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds,)", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], &cards!(Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds,)),
    ("cards!(Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs)", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], &cards!(Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs)),
    ("cards!(Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs,)", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], &cards!(Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs,)),
    ("cards!(Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs)", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], &cards!(Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs)),
    ("cards!(Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs,)", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], &cards!(Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs,)),
    ("cards!(Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades)", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &cards!(Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades)),
    ("cards!(Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades,)", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &cards!(Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades,)),
    ("cards!(Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts)", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], &cards!(Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts)),
    ("cards!(Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts,)", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], &cards!(Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts,)),
    ("cards!(Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts)", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], &cards!(Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts)),
    ("cards!(Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts,)", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], &cards!(Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts,)),
    ("cards!(Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds)", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], &cards!(Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds)),
    ("cards!(Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds,)", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], &cards!(Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds,)),
    ("cards!(Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs)", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], &cards!(Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs)),
    ("cards!(Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs,)", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], &cards!(Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs,)),
    ("cards!(Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs)", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &cards!(Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs)),
    ("cards!(Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs,)", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &cards!(Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs,)),
    ("cards!(Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades)", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], &cards!(Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades)),
    ("cards!(Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades,)", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], &cards!(Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades,)),
    ("cards!(King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts)", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], &cards!(King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts)),
    ("cards!(King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts,)", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], &cards!(King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts,)),
    ("cards!(Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts)", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], &cards!(Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts)),
    ("cards!(Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts,)", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], &cards!(Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts,)),
    ("cards!(Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds)", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], &cards!(Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds)),
    ("cards!(Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds,)", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], &cards!(Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds,)),
    ("cards!(Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs)", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &cards!(Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs)),
    ("cards!(Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs,)", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &cards!(Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs,)),
    ("cards!(Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs)", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs)),
    ("cards!(Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs,)", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], &cards!(Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs,)),
    ("cards!(Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades)", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades)),
    ("cards!(Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades,)", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], &cards!(Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades,)),
    ("cards!(Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts)", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts)),
    ("cards!(Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts,)", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], &cards!(Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts,)),
    ("cards!(Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts)", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts)),
    ("cards!(Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts,)", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], &cards!(Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts,)),
    ("cards!(Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds)", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds)),
    ("cards!(Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds,)", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &cards!(Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds,)),
    ("cards!(Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs)", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs)),
    ("cards!(Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs,)", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], &cards!(Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs,)),
    ("cards!(Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs)", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs)),
    ("cards!(Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs,)", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], &cards!(Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs,)),
    ("cards!(Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades)", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades)),
    ("cards!(Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades,)", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], &cards!(Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades,)),
    ("cards!(Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts)", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts)),
    ("cards!(Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts,)", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], &cards!(Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts,)),
    ("cards!(Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts)", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts)),
    ("cards!(Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts,)", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &cards!(Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts,)),
    ("cards!(Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds)", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds)),
    ("cards!(Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds,)", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], &cards!(Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds,)),
    ("cards!(Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs)", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs)),
    ("cards!(Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs,)", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], &cards!(Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs,)),
    ("cards!(Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs)", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs)),
    ("cards!(Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs,)", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &cards!(Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs,)),
    ("cards!(Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades)", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades)),
    ("cards!(Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades,)", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], &cards!(Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades,)),
    ("cards!(Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts)", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts)),
    ("cards!(Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts,)", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &cards!(Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts,)),
    ("cards!(Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts)", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts)),
    ("cards!(Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts,)", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], &cards!(Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts,)),
    ("cards!(Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds)", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds)),
    ("cards!(Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds,)", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], &cards!(Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds,)),
    ("cards!(Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs)", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs)),
    ("cards!(Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs,)", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &cards!(Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs,)),
    ("cards!(King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs)", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs)),
    ("cards!(King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs,)", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], &cards!(King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs,)),
    ("cards!(Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades)", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades)),
    ("cards!(Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades,)", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &cards!(Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades,)),
    ("cards!(Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts)", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts)),
    ("cards!(Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts,)", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], &cards!(Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts,)),
    ("cards!(King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts)", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts)),
    ("cards!(King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts,)", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], &cards!(King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts,)),
    ("cards!(Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds)", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds)),
    ("cards!(Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds,)", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &cards!(Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds,)),
    ("cards!(Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs)", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs)),
    ("cards!(Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs,)", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], &cards!(Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs,)),
    ("cards!(King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs)", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs)),
    ("cards!(King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs,)", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &cards!(King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs,)),
    ("cards!(Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades)", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades)),
    ("cards!(Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades,)", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], &cards!(Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades,)),
    ("cards!(Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts)", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts)),
    ("cards!(Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts,)", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], &cards!(Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts,)),
    ("cards!(King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts)", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts)),
    ("cards!(King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts,)", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &cards!(King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts,)),
    ("cards!(Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds)", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds)),
    ("cards!(Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds,)", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], &cards!(Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds,)),
    ("cards!(Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs)", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs)),
    ("cards!(Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs,)", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &cards!(Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs,)),
    ("cards!(Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs)", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs)),
    ("cards!(Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs,)", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], &cards!(Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs,)),
    ("cards!(Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades)", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades)),
    ("cards!(Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades,)", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], &cards!(Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades,)),
    ("cards!(Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts)", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts)),
    ("cards!(Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts,)", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &cards!(Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts,)),
    ("cards!(Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts)", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts)),
    ("cards!(Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts,)", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], &cards!(Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts,)),
    ("cards!(Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds)", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds)),
    ("cards!(Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds,)", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &cards!(Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds,)),
    ("cards!(Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs)", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs)),
    ("cards!(Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs,)", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], &cards!(Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs,)),
    ("cards!(Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs)", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs)),
    ("cards!(Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs,)", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], &cards!(Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs,)),
    ("cards!(Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades)", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades)),
    ("cards!(Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades,)", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &cards!(Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades,)),
    ("cards!(Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts)", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts)),
    ("cards!(Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts,)", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], &cards!(Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts,)),
    ("cards!(Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts)", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts)),
    ("cards!(Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts,)", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &cards!(Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts,)),
    ("cards!(Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds)", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds)),
    ("cards!(Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds,)", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], &cards!(Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds,)),
    ("cards!(King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs)", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs)),
    ("cards!(King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs,)", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], &cards!(King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs,)),
    ("cards!(Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs)", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs)),
    ("cards!(Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs,)", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &cards!(Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs,)),
    ("cards!(Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades)", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades)),
    ("cards!(Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades,)", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], &cards!(Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades,)),
    ("cards!(Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts)", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts)),
    ("cards!(Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts,)", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &cards!(Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts,)),
];

/// The same forms where the value is made at run time.
pub fn at_run_time(f: &mut dyn FnMut(&str, &[u8], &[Card])) {
    let c = card!(Two, Spades); f("card!(Two, Spades)", &[0], &[c]);
    let c = card!(Two of Spades); f("card!(Two of Spades)", &[0], &[c]);
    let c = card!(Two, Hearts); f("card!(Two, Hearts)", &[1], &[c]);
    let c = card!(Two of Hearts); f("card!(Two of Hearts)", &[1], &[c]);
    let c = card!(Two, Diamonds); f("card!(Two, Diamonds)", &[2], &[c]);
    let c = card!(Two of Diamonds); f("card!(Two of Diamonds)", &[2], &[c]);
    let c = card!(Two, Clubs); f("card!(Two, Clubs)", &[3], &[c]);
    let c = card!(Two of Clubs); f("card!(Two of Clubs)", &[3], &[c]);
    let c = card!(Three, Spades); f("card!(Three, Spades)", &[4], &[c]);
    let c = card!(Three of Spades); f("card!(Three of Spades)", &[4], &[c]);
    let c = card!(Three, Hearts); f("card!(Three, Hearts)", &[5], &[c]);
    let c = card!(Three of Hearts); f("card!(Three of Hearts)", &[5], &[c]);
    let c = card!(Three, Diamonds); f("card!(Three, Diamonds)", &[6], &[c]);
    let c = card!(Three of Diamonds); f("card!(Three of Diamonds)", &[6], &[c]);
    let c = card!(Three, Clubs); f("card!(Three, Clubs)", &[7], &[c]);
    let c = card!(Three of Clubs); f("card!(Three of Clubs)", &[7], &[c]);
    let c = card!(Four, Spades); f("card!(Four, Spades)", &[8], &[c]);
    let c = card!(Four of Spades); f("card!(Four of Spades)", &[8], &[c]);
    let c = card!(Four, Hearts); f("card!(Four, Hearts)", &[9], &[c]);
    let c = card!(Four of Hearts); f("card!(Four of Hearts)", &[9], &[c]);
    let c = card!(Four, Diamonds); f("card!(Four, Diamonds)", &[10], &[c]);
    let c = card!(Four of Diamonds); f("card!(Four of Diamonds)", &[10], &[c]);
    let c = card!(Four, Clubs); f("card!(Four, Clubs)", &[11], &[c]);
    let c = card!(Four of Clubs); f("card!(Four of Clubs)", &[11], &[c]);
    let c = card!(Five, Spades); f("card!(Five, Spades)", &[12], &[c]);
    let c = card!(Five of Spades); f("card!(Five of Spades)", &[12], &[c]);
    let c = card!(Five, Hearts); f("card!(Five, Hearts)", &[13], &[c]);
    let c = card!(Five of Hearts); f("card!(Five of Hearts)", &[13], &[c]);
    let c = card!(Five, Diamonds); f("card!(Five, Diamonds)", &[14], &[c]);
    let c = card!(Five of Diamonds); f("card!(Five of Diamonds)", &[14], &[c]);
    let c = card!(Five, Clubs); f("card!(Five, Clubs)", &[15], &[c]);
    let c = card!(Five of Clubs); f("card!(Five of Clubs)", &[15], &[c]);
    let c = card!(Six, Spades); f("card!(Six, Spades)", &[16], &[c]);
    let c = card!(Six of Spades); f("card!(Six of Spades)", &[16], &[c]);
    let c = card!(Six, Hearts); f("card!(Six, Hearts)", &[17], &[c]);
    let c = card!(Six of Hearts); f("card!(Six of Hearts)", &[17], &[c]);
    let c = card!(Six, Diamonds); f("card!(Six, Diamonds)", &[18], &[c]);
    let c = card!(Six of Diamonds); f("card!(Six of Diamonds)", &[18], &[c]);
    let c = card!(Six, Clubs); f("card!(Six, Clubs)", &[19], &[c]);
    let c = card!(Six of Clubs); f("card!(Six of Clubs)", &[19], &[c]);
    let c = card!(Seven, Spades); f("card!(Seven, Spades)", &[20], &[c]);
    let c = card!(Seven of Spades); f("card!(Seven of Spades)", &[20], &[c]);
    let c = card!(Seven, Hearts); f("card!(Seven, Hearts)", &[21], &[c]);
    let c = card!(Seven of Hearts); f("card!(Seven of Hearts)", &[21], &[c]);
    let c = card!(Seven, Diamonds); f("card!(Seven, Diamonds)", &[22], &[c]);
    let c = card!(Seven of Diamonds); f("card!(Seven of Diamonds)", &[22], &[c]);
    let c = card!(Seven, Clubs); f("card!(Seven, Clubs)", &[23], &[c]);
    let c = card!(Seven of Clubs); f("card!(Seven of Clubs)", &[23], &[c]);
    let c = card!(Eight, Spades); f("card!(Eight, Spades)", &[24], &[c]);
    let c = card!(Eight of Spades); f("card!(Eight of Spades)", &[24], &[c]);
    let c = card!(Eight, Hearts); f("card!(Eight, Hearts)", &[25], &[c]);
    let c = card!(Eight of Hearts); f("card!(Eight of Hearts)", &[25], &[c]);
    let c = card!(Eight, Diamonds); f("card!(Eight, Diamonds)", &[26], &[c]);
    let c = card!(Eight of Diamonds); f("card!(Eight of Diamonds)", &[26], &[c]);
    let c = card!(Eight, Clubs); f("card!(Eight, Clubs)", &[27], &[c]);
    let c = card!(Eight of Clubs); f("card!(Eight of Clubs)", &[27], &[c]);
    let c = card!(Nine, Spades); f("card!(Nine, Spades)", &[28], &[c]);
    let c = card!(Nine of Spades); f("card!(Nine of Spades)", &[28], &[c]);
    let c = card!(Nine, Hearts); f("card!(Nine, Hearts)", &[29], &[c]);
    let c = card!(Nine of Hearts); f("card!(Nine of Hearts)", &[29], &[c]);
    let c = card!(Nine, Diamonds); f("card!(Nine, Diamonds)", &[30], &[c]);
    let c = card!(Nine of Diamonds); f("card!(Nine of Diamonds)", &[30], &[c]);
    let c = card!(Nine, Clubs); f("card!(Nine, Clubs)", &[31], &[c]);
    let c = card!(Nine of Clubs); f("card!(Nine of Clubs)", &[31], &[c]);
    let c = card!(Ten, Spades); f("card!(Ten, Spades)", &[32], &[c]);
    let c = card!(Ten of Spades); f("card!(Ten of Spades)", &[32], &[c]);
    let c = card!(Ten, Hearts); f("card!(Ten, Hearts)", &[33], &[c]);
    let c = card!(Ten of Hearts); f("card!(Ten of Hearts)", &[33], &[c]);
    let c = card!(Ten, Diamonds); f("card!(Ten, Diamonds)", &[34], &[c]);
    let c = card!(Ten of Diamonds); f("card!(Ten of Diamonds)", &[34], &[c]);
    let c = card!(Ten, Clubs); f("card!(Ten, Clubs)", &[35], &[c]);
    let c = card!(Ten of Clubs); f("card!(Ten of Clubs)", &[35], &[c]);
    let c = card!(Jack, Spades); f("card!(Jack, Spades)", &[36], &[c]);
    let c = card!(Jack of Spades); f("card!(Jack of Spades)", &[36], &[c]);
    let c = card!(Jack, Hearts); f("card!(Jack, Hearts)", &[37], &[c]);
    let c = card!(Jack of Hearts); f("card!(Jack of Hearts)", &[37], &[c]);
    let c = card!(Jack, Diamonds); f("card!(Jack, Diamonds)", &[38], &[c]);
    let c = card!(Jack of Diamonds); f("card!(Jack of Diamonds)", &[38], &[c]);
    let c = card!(Jack, Clubs); f("card!(Jack, Clubs)", &[39], &[c]);
    let c = card!(Jack of Clubs); f("card!(Jack of Clubs)", &[39], &[c]);
    let c = card!(Queen, Spades); f("card!(Queen, Spades)", &[40], &[c]);
    let c = card!(Queen of Spades); f("card!(Queen of Spades)", &[40], &[c]);
    let c = card!(Queen, Hearts); f("card!(Queen, Hearts)", &[41], &[c]);
    let c = card!(Queen of Hearts); f("card!(Queen of Hearts)", &[41], &[c]);
    let c = card!(Queen, Diamonds); f("card!(Queen, Diamonds)", &[42], &[c]);
    let c = card!(Queen of Diamonds); f("card!(Queen of Diamonds)", &[42], &[c]);
    let c = card!(Queen, Clubs); f("card!(Queen, Clubs)", &[43], &[c]);
    let c = card!(Queen of Clubs); f("card!(Queen of Clubs)", &[43], &[c]);
    let c = card!(King, Spades); f("card!(King, Spades)", &[44], &[c]);
    let c = card!(King of Spades); f("card!(King of Spades)", &[44], &[c]);
    let c = card!(King, Hearts); f("card!(King, Hearts)", &[45], &[c]);
    let c = card!(King of Hearts); f("card!(King of Hearts)", &[45], &[c]);
    let c = card!(King, Diamonds); f("card!(King, Diamonds)", &[46], &[c]);
    let c = card!(King of Diamonds); f("card!(King of Diamonds)", &[46], &[c]);
    let c = card!(King, Clubs); f("card!(King, Clubs)", &[47], &[c]);
    let c = card!(King of Clubs); f("card!(King of Clubs)", &[47], &[c]);
    let c = card!(Ace, Spades); f("card!(Ace, Spades)", &[48], &[c]);
    let c = card!(Ace of Spades); f("card!(Ace of Spades)", &[48], &[c]);
    let c = card!(Ace, Hearts); f("card!(Ace, Hearts)", &[49], &[c]);
    let c = card!(Ace of Hearts); f("card!(Ace of Hearts)", &[49], &[c]);
    let c = card!(Ace, Diamonds); f("card!(Ace, Diamonds)", &[50], &[c]);
    let c = card!(Ace of Diamonds); f("card!(Ace of Diamonds)", &[50], &[c]);
    let c = card!(Ace, Clubs); f("card!(Ace, Clubs)", &[51], &[c]);
    let c = card!(Ace of Clubs); f("card!(Ace of Clubs)", &[51], &[c]);
    let c: [Card; 1] = cards!(Two, Hearts); f("names", &[1], &c);
    f("of", &[1], &Vec::from(cards!(Two of Hearts)));
    let c: [Card; 2] = cards!(Five, Diamonds; Eight, Hearts); f("names", &[14,25], &c);
    f("of", &[14,25], &Vec::from(cards!(Five of Diamonds, Eight of Hearts)));
    let c: [Card; 4] = cards!(King, Clubs; King, Diamonds; King, Hearts; King, Spades); f("names", &[47,46,45,44], &c);
    f("of", &[47,46,45,44], &Vec::from(cards!(King of Clubs, King of Diamonds, King of Hearts, King of Spades)));
    let c: [Card; 6] = cards!(Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs); f("names", &[6,7,8,9,10,11], &c);
    f("of", &[6,7,8,9,10,11], &Vec::from(cards!(Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs)));
    let c: [Card; 7] = cards!(Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs); f("names", &[49,8,19,30,41,0,11], &c);
    f("of", &[49,8,19,30,41,0,11], &Vec::from(cards!(Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs)));
    let c: [Card; 9] = cards!(Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds); f("names", &[42,41,40,39,38,37,36,35,34], &c);
    f("of", &[42,41,40,39,38,37,36,35,34], &Vec::from(cards!(Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds)));
    let c: [Card; 11] = cards!(Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts); f("names", &[11,12,13,14,15,16,17,18,19,20,21], &c);
    f("of", &[11,12,13,14,15,16,17,18,19,20,21], &Vec::from(cards!(Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts)));
    let c: [Card; 12] = cards!(Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts); f("names", &[32,43,2,13,24,35,46,5,16,27,38,49], &c);
    f("of", &[32,43,2,13,24,35,46,5,16,27,38,49], &Vec::from(cards!(Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts)));
    let c: [Card; 14] = cards!(Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades); f("names", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &c);
    f("of", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], &Vec::from(cards!(Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades)));
    let c: [Card; 16] = cards!(Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs); f("names", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &c);
    f("of", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], &Vec::from(cards!(Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs)));
    let c: [Card; 17] = cards!(Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs); f("names", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &c);
    f("of", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], &Vec::from(cards!(Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs)));
    let c: [Card; 19] = cards!(Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds); f("names", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &c);
    f("of", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], &Vec::from(cards!(Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds)));
    let c: [Card; 21] = cards!(Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts); f("names", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &c);
    f("of", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], &Vec::from(cards!(Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts)));
    let c: [Card; 22] = cards!(Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts); f("names", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &c);
    f("of", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], &Vec::from(cards!(Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts)));
    let c: [Card; 24] = cards!(Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades); f("names", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &c);
    f("of", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], &Vec::from(cards!(Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades)));
    let c: [Card; 26] = cards!(Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs); f("names", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &c);
    f("of", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], &Vec::from(cards!(Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs)));
    let c: [Card; 27] = cards!(Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs); f("names", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &c);
    f("of", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], &Vec::from(cards!(Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs)));
    let c: [Card; 29] = cards!(Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds); f("names", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &c);
    f("of", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], &Vec::from(cards!(Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds)));
    let c: [Card; 31] = cards!(Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts); f("names", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &c);
    f("of", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], &Vec::from(cards!(Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts)));
    let c: [Card; 32] = cards!(Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts); f("names", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &c);
    f("of", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], &Vec::from(cards!(Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts)));
    let c: [Card; 34] = cards!(Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades); f("names", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &c);
    f("of", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], &Vec::from(cards!(Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades)));
    let c: [Card; 36] = cards!(Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs); f("names", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &c);
    f("of", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], &Vec::from(cards!(Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs)));
    let c: [Card; 37] = cards!(Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs); f("names", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &c);
    f("of", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], &Vec::from(cards!(Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs)));
    let c: [Card; 39] = cards!(Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds); f("names", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &c);
    f("of", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], &Vec::from(cards!(Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds)));
    let c: [Card; 41] = cards!(Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts); f("names", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &c);
    f("of", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], &Vec::from(cards!(Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts)));
    let c: [Card; 42] = cards!(Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts); f("names", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &c);
    f("of", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], &Vec::from(cards!(Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts)));
    let c: [Card; 44] = cards!(Three, Clubs; Three, Diamonds; Three, Hearts; Three, Spades; Two, Clubs; Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades); f("names", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &c);
    f("of", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], &Vec::from(cards!(Three of Clubs, Three of Diamonds, Three of Hearts, Three of Spades, Two of Clubs, Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades)));
    let c: [Card; 46] = cards!(King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts; Ace, Diamonds; Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs); f("names", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &c);
    f("of", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], &Vec::from(cards!(King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts, Ace of Diamonds, Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs)));
    let c: [Card; 47] = cards!(Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts; Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs); f("names", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &c);
    f("of", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], &Vec::from(cards!(Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts, Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs)));
    let c: [Card; 49] = cards!(Two, Diamonds; Two, Hearts; Two, Spades; Ace, Clubs; Ace, Diamonds; Ace, Hearts; Ace, Spades; King, Clubs; King, Diamonds; King, Hearts; King, Spades; Queen, Clubs; Queen, Diamonds; Queen, Hearts; Queen, Spades; Jack, Clubs; Jack, Diamonds; Jack, Hearts; Jack, Spades; Ten, Clubs; Ten, Diamonds; Ten, Hearts; Ten, Spades; Nine, Clubs; Nine, Diamonds; Nine, Hearts; Nine, Spades; Eight, Clubs; Eight, Diamonds; Eight, Hearts; Eight, Spades; Seven, Clubs; Seven, Diamonds; Seven, Hearts; Seven, Spades; Six, Clubs; Six, Diamonds; Six, Hearts; Six, Spades; Five, Clubs; Five, Diamonds; Five, Hearts; Five, Spades; Four, Clubs; Four, Diamonds; Four, Hearts; Four, Spades; Three, Clubs; Three, Diamonds); f("names", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &c);
    f("of", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], &Vec::from(cards!(Two of Diamonds, Two of Hearts, Two of Spades, Ace of Clubs, Ace of Diamonds, Ace of Hearts, Ace of Spades, King of Clubs, King of Diamonds, King of Hearts, King of Spades, Queen of Clubs, Queen of Diamonds, Queen of Hearts, Queen of Spades, Jack of Clubs, Jack of Diamonds, Jack of Hearts, Jack of Spades, Ten of Clubs, Ten of Diamonds, Ten of Hearts, Ten of Spades, Nine of Clubs, Nine of Diamonds, Nine of Hearts, Nine of Spades, Eight of Clubs, Eight of Diamonds, Eight of Hearts, Eight of Spades, Seven of Clubs, Seven of Diamonds, Seven of Hearts, Seven of Spades, Six of Clubs, Six of Diamonds, Six of Hearts, Six of Spades, Five of Clubs, Five of Diamonds, Five of Hearts, Five of Spades, Four of Clubs, Four of Diamonds, Four of Hearts, Four of Spades, Three of Clubs, Three of Diamonds)));
    let c: [Card; 51] = cards!(Ace, Clubs; Two, Spades; Two, Hearts; Two, Diamonds; Two, Clubs; Three, Spades; Three, Hearts; Three, Diamonds; Three, Clubs; Four, Spades; Four, Hearts; Four, Diamonds; Four, Clubs; Five, Spades; Five, Hearts; Five, Diamonds; Five, Clubs; Six, Spades; Six, Hearts; Six, Diamonds; Six, Clubs; Seven, Spades; Seven, Hearts; Seven, Diamonds; Seven, Clubs; Eight, Spades; Eight, Hearts; Eight, Diamonds; Eight, Clubs; Nine, Spades; Nine, Hearts; Nine, Diamonds; Nine, Clubs; Ten, Spades; Ten, Hearts; Ten, Diamonds; Ten, Clubs; Jack, Spades; Jack, Hearts; Jack, Diamonds; Jack, Clubs; Queen, Spades; Queen, Hearts; Queen, Diamonds; Queen, Clubs; King, Spades; King, Hearts; King, Diamonds; King, Clubs; Ace, Spades; Ace, Hearts); f("names", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &c);
    f("of", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], &Vec::from(cards!(Ace of Clubs, Two of Spades, Two of Hearts, Two of Diamonds, Two of Clubs, Three of Spades, Three of Hearts, Three of Diamonds, Three of Clubs, Four of Spades, Four of Hearts, Four of Diamonds, Four of Clubs, Five of Spades, Five of Hearts, Five of Diamonds, Five of Clubs, Six of Spades, Six of Hearts, Six of Diamonds, Six of Clubs, Seven of Spades, Seven of Hearts, Seven of Diamonds, Seven of Clubs, Eight of Spades, Eight of Hearts, Eight of Diamonds, Eight of Clubs, Nine of Spades, Nine of Hearts, Nine of Diamonds, Nine of Clubs, Ten of Spades, Ten of Hearts, Ten of Diamonds, Ten of Clubs, Jack of Spades, Jack of Hearts, Jack of Diamonds, Jack of Clubs, Queen of Spades, Queen of Hearts, Queen of Diamonds, Queen of Clubs, King of Spades, King of Hearts, King of Diamonds, King of Clubs, Ace of Spades, Ace of Hearts)));
    let c: [Card; 52] = cards!(Two, Spades; Four, Clubs; Seven, Diamonds; Ten, Hearts; King, Spades; Two, Clubs; Five, Diamonds; Eight, Hearts; Jack, Spades; King, Clubs; Three, Diamonds; Six, Hearts; Nine, Spades; Jack, Clubs; Ace, Diamonds; Four, Hearts; Seven, Spades; Nine, Clubs; Queen, Diamonds; Two, Hearts; Five, Spades; Seven, Clubs; Ten, Diamonds; King, Hearts; Three, Spades; Five, Clubs; Eight, Diamonds; Jack, Hearts; Ace, Spades; Three, Clubs; Six, Diamonds; Nine, Hearts; Queen, Spades; Ace, Clubs; Four, Diamonds; Seven, Hearts; Ten, Spades; Queen, Clubs; Two, Diamonds; Five, Hearts; Eight, Spades; Ten, Clubs; King, Diamonds; Three, Hearts; Six, Spades; Eight, Clubs; Jack, Diamonds; Ace, Hearts; Four, Spades; Six, Clubs; Nine, Diamonds; Queen, Hearts); f("names", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &c);
    f("of", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], &Vec::from(cards!(Two of Spades, Four of Clubs, Seven of Diamonds, Ten of Hearts, King of Spades, Two of Clubs, Five of Diamonds, Eight of Hearts, Jack of Spades, King of Clubs, Three of Diamonds, Six of Hearts, Nine of Spades, Jack of Clubs, Ace of Diamonds, Four of Hearts, Seven of Spades, Nine of Clubs, Queen of Diamonds, Two of Hearts, Five of Spades, Seven of Clubs, Ten of Diamonds, King of Hearts, Three of Spades, Five of Clubs, Eight of Diamonds, Jack of Hearts, Ace of Spades, Three of Clubs, Six of Diamonds, Nine of Hearts, Queen of Spades, Ace of Clubs, Four of Diamonds, Seven of Hearts, Ten of Spades, Queen of Clubs, Two of Diamonds, Five of Hearts, Eight of Spades, Ten of Clubs, King of Diamonds, Three of Hearts, Six of Spades, Eight of Clubs, Jack of Diamonds, Ace of Hearts, Four of Spades, Six of Clubs, Nine of Diamonds, Queen of Hearts)));
}

/// String literals.
pub fn strings(f: &mut dyn FnMut(&str, &[u8], Vec<Parsed>)) {
    f("card!(\"2s\")", &[0], vec![card!("2s")]);
    f("cards!(\"2s\")", &[0], cards!("2s").collect());
    f("card!(\"2h\")", &[1], vec![card!("2h")]);
    f("cards!(\"2h\")", &[1], cards!("2h").collect());
    f("card!(\"2d\")", &[2], vec![card!("2d")]);
    f("cards!(\"2d\")", &[2], cards!("2d").collect());
    f("card!(\"2c\")", &[3], vec![card!("2c")]);
    f("cards!(\"2c\")", &[3], cards!("2c").collect());
    f("card!(\"3s\")", &[4], vec![card!("3s")]);
    f("cards!(\"3s\")", &[4], cards!("3s").collect());
    f("card!(\"3h\")", &[5], vec![card!("3h")]);
    f("cards!(\"3h\")", &[5], cards!("3h").collect());
    f("card!(\"3d\")", &[6], vec![card!("3d")]);
    f("cards!(\"3d\")", &[6], cards!("3d").collect());
    f("card!(\"3c\")", &[7], vec![card!("3c")]);
    f("cards!(\"3c\")", &[7], cards!("3c").collect());
    f("card!(\"4s\")", &[8], vec![card!("4s")]);
    f("cards!(\"4s\")", &[8], cards!("4s").collect());
    f("card!(\"4h\")", &[9], vec![card!("4h")]);
    f("cards!(\"4h\")", &[9], cards!("4h").collect());
    f("card!(\"4d\")", &[10], vec![card!("4d")]);
    f("cards!(\"4d\")", &[10], cards!("4d").collect());
    f("card!(\"4c\")", &[11], vec![card!("4c")]);
    f("cards!(\"4c\")", &[11], cards!("4c").collect());
    f("card!(\"5s\")", &[12], vec![card!("5s")]);
    f("cards!(\"5s\")", &[12], cards!("5s").collect());
    f("card!(\"5h\")", &[13], vec![card!("5h")]);
    f("cards!(\"5h\")", &[13], cards!("5h").collect());
    f("card!(\"5d\")", &[14], vec![card!("5d")]);
    f("cards!(\"5d\")", &[14], cards!("5d").collect());
    f("card!(\"5c\")", &[15], vec![card!("5c")]);
    f("cards!(\"5c\")", &[15], cards!("5c").collect());
    f("card!(\"6s\")", &[16], vec![card!("6s")]);
    f("cards!(\"6s\")", &[16], cards!("6s").collect());
    f("card!(\"6h\")", &[17], vec![card!("6h")]);
    f("cards!(\"6h\")", &[17], cards!("6h").collect());
    f("card!(\"6d\")", &[18], vec![card!("6d")]);
    f("cards!(\"6d\")", &[18], cards!("6d").collect());
    f("card!(\"6c\")", &[19], vec![card!("6c")]);
    f("cards!(\"6c\")", &[19], cards!("6c").collect());
    f("card!(\"7s\")", &[20], vec![card!("7s")]);
    f("cards!(\"7s\")", &[20], cards!("7s").collect());
    f("card!(\"7h\")", &[21], vec![card!("7h")]);
    f("cards!(\"7h\")", &[21], cards!("7h").collect());
    f("card!(\"7d\")", &[22], vec![card!("7d")]);
    f("cards!(\"7d\")", &[22], cards!("7d").collect());
    f("card!(\"7c\")", &[23], vec![card!("7c")]);
    f("cards!(\"7c\")", &[23], cards!("7c").collect());
    f("card!(\"8s\")", &[24], vec![card!("8s")]);
    f("cards!(\"8s\")", &[24], cards!("8s").collect());
    f("card!(\"8h\")", &[25], vec![card!("8h")]);
    f("cards!(\"8h\")", &[25], cards!("8h").collect());
    f("card!(\"8d\")", &[26], vec![card!("8d")]);
    f("cards!(\"8d\")", &[26], cards!("8d").collect());
    f("card!(\"8c\")", &[27], vec![card!("8c")]);
    f("cards!(\"8c\")", &[27], cards!("8c").collect());
    f("card!(\"9s\")", &[28], vec![card!("9s")]);
    f("cards!(\"9s\")", &[28], cards!("9s").collect());
    f("card!(\"9h\")", &[29], vec![card!("9h")]);
    f("cards!(\"9h\")", &[29], cards!("9h").collect());
    f("card!(\"9d\")", &[30], vec![card!("9d")]);
    f("cards!(\"9d\")", &[30], cards!("9d").collect());
    f("card!(\"9c\")", &[31], vec![card!("9c")]);
    f("cards!(\"9c\")", &[31], cards!("9c").collect());
    f("card!(\"Ts\")", &[32], vec![card!("Ts")]);
    f("cards!(\"Ts\")", &[32], cards!("Ts").collect());
    f("card!(\"Th\")", &[33], vec![card!("Th")]);
    f("cards!(\"Th\")", &[33], cards!("Th").collect());
    f("card!(\"Td\")", &[34], vec![card!("Td")]);
    f("cards!(\"Td\")", &[34], cards!("Td").collect());
    f("card!(\"Tc\")", &[35], vec![card!("Tc")]);
    f("cards!(\"Tc\")", &[35], cards!("Tc").collect());
    f("card!(\"Js\")", &[36], vec![card!("Js")]);
    f("cards!(\"Js\")", &[36], cards!("Js").collect());
    f("card!(\"Jh\")", &[37], vec![card!("Jh")]);
    f("cards!(\"Jh\")", &[37], cards!("Jh").collect());
    f("card!(\"Jd\")", &[38], vec![card!("Jd")]);
    f("cards!(\"Jd\")", &[38], cards!("Jd").collect());
    f("card!(\"Jc\")", &[39], vec![card!("Jc")]);
    f("cards!(\"Jc\")", &[39], cards!("Jc").collect());
    f("card!(\"Qs\")", &[40], vec![card!("Qs")]);
    f("cards!(\"Qs\")", &[40], cards!("Qs").collect());
    f("card!(\"Qh\")", &[41], vec![card!("Qh")]);
    f("cards!(\"Qh\")", &[41], cards!("Qh").collect());
    f("card!(\"Qd\")", &[42], vec![card!("Qd")]);
    f("cards!(\"Qd\")", &[42], cards!("Qd").collect());
    f("card!(\"Qc\")", &[43], vec![card!("Qc")]);
    f("cards!(\"Qc\")", &[43], cards!("Qc").collect());
    f("card!(\"Ks\")", &[44], vec![card!("Ks")]);
    f("cards!(\"Ks\")", &[44], cards!("Ks").collect());
    f("card!(\"Kh\")", &[45], vec![card!("Kh")]);
    f("cards!(\"Kh\")", &[45], cards!("Kh").collect());
    f("card!(\"Kd\")", &[46], vec![card!("Kd")]);
    f("cards!(\"Kd\")", &[46], cards!("Kd").collect());
    f("card!(\"Kc\")", &[47], vec![card!("Kc")]);
    f("cards!(\"Kc\")", &[47], cards!("Kc").collect());
    f("card!(\"As\")", &[48], vec![card!("As")]);
    f("cards!(\"As\")", &[48], cards!("As").collect());
    f("card!(\"Ah\")", &[49], vec![card!("Ah")]);
    f("cards!(\"Ah\")", &[49], cards!("Ah").collect());
    f("card!(\"Ad\")", &[50], vec![card!("Ad")]);
    f("cards!(\"Ad\")", &[50], cards!("Ad").collect());
    f("card!(\"Ac\")", &[51], vec![card!("Ac")]);
    f("cards!(\"Ac\")", &[51], cards!("Ac").collect());
    f("one string", &[1], cards!("2h").collect());
    f("one string", &[50], cards!("Ad").collect());
    f("one string", &[7], cards!("3c").collect());
    f("string list", &[2,3], cards!("2d", "2c").collect());
    f("one string", &[2,3], cards!("2d 2c").collect());
    f("string list", &[49,48], cards!("Ah", "As",).collect());
    f("one string", &[49,48], cards!("Ah As").collect());
    f("string list", &[14,25], cards!("5d", "8h").collect());
    f("one string", &[14,25], cards!("5d 8h").collect());
    f("string list", &[3,4,5], cards!("2c", "3s", "3h",).collect());
    f("one string", &[3,4,5], cards!("2c 3s 3h").collect());
    f("string list", &[48,47,46], cards!("As", "Kc", "Kd").collect());
    f("one string", &[48,47,46], cards!("As Kc Kd").collect());
    f("string list", &[21,32,43], cards!("7h", "Ts", "Qc",).collect());
    f("one string", &[21,32,43], cards!("7h Ts Qc").collect());
    f("string list", &[4,5,6,7], cards!("3s", "3h", "3d", "3c").collect());
    f("one string", &[4,5,6,7], cards!("3s 3h 3d 3c").collect());
    f("string list", &[47,46,45,44], cards!("Kc", "Kd", "Kh", "Ks",).collect());
    f("one string", &[47,46,45,44], cards!("Kc Kd Kh Ks").collect());
    f("string list", &[28,39,50,9], cards!("9s", "Jc", "Ad", "4h").collect());
    f("one string", &[28,39,50,9], cards!("9s Jc Ad 4h").collect());
    f("string list", &[5,6,7,8,9], cards!("3h", "3d", "3c", "4s", "4h",).collect());
    f("one string", &[5,6,7,8,9], cards!("3h 3d 3c 4s 4h").collect());
    f("string list", &[46,45,44,43,42], cards!("Kd", "Kh", "Ks", "Qc", "Qd").collect());
    f("one string", &[46,45,44,43,42], cards!("Kd Kh Ks Qc Qd").collect());
    f("string list", &[35,46,5,16,27], cards!("Tc", "Kd", "3h", "6s", "8c",).collect());
    f("one string", &[35,46,5,16,27], cards!("Tc Kd 3h 6s 8c").collect());
    f("string list", &[6,7,8,9,10,11], cards!("3d", "3c", "4s", "4h", "4d", "4c").collect());
    f("one string", &[6,7,8,9,10,11], cards!("3d 3c 4s 4h 4d 4c").collect());
    f("string list", &[45,44,43,42,41,40], cards!("Kh", "Ks", "Qc", "Qd", "Qh", "Qs",).collect());
    f("one string", &[45,44,43,42,41,40], cards!("Kh Ks Qc Qd Qh Qs").collect());
    f("string list", &[42,1,12,23,34,45], cards!("Qd", "2h", "5s", "7c", "Td", "Kh").collect());
    f("one string", &[42,1,12,23,34,45], cards!("Qd 2h 5s 7c Td Kh").collect());
    f("string list", &[7,8,9,10,11,12,13], cards!("3c", "4s", "4h", "4d", "4c", "5s", "5h",).collect());
    f("one string", &[7,8,9,10,11,12,13], cards!("3c 4s 4h 4d 4c 5s 5h").collect());
    f("string list", &[44,43,42,41,40,39,38], cards!("Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd").collect());
    f("one string", &[44,43,42,41,40,39,38], cards!("Ks Qc Qd Qh Qs Jc Jd").collect());
    f("string list", &[49,8,19,30,41,0,11], cards!("Ah", "4s", "6c", "9d", "Qh", "2s", "4c",).collect());
    f("one string", &[49,8,19,30,41,0,11], cards!("Ah 4s 6c 9d Qh 2s 4c").collect());
    f("string list", &[8,9,10,11,12,13,14,15], cards!("4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c").collect());
    f("one string", &[8,9,10,11,12,13,14,15], cards!("4s 4h 4d 4c 5s 5h 5d 5c").collect());
    f("string list", &[43,42,41,40,39,38,37,36], cards!("Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js",).collect());
    f("one string", &[43,42,41,40,39,38,37,36], cards!("Qc Qd Qh Qs Jc Jd Jh Js").collect());
    f("string list", &[4,15,26,37,48,7,18,29], cards!("3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h").collect());
    f("one string", &[4,15,26,37,48,7,18,29], cards!("3s 5c 8d Jh As 3c 6d 9h").collect());
    f("string list", &[9,10,11,12,13,14,15,16,17], cards!("4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h",).collect());
    f("one string", &[9,10,11,12,13,14,15,16,17], cards!("4h 4d 4c 5s 5h 5d 5c 6s 6h").collect());
    f("string list", &[42,41,40,39,38,37,36,35,34], cards!("Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td").collect());
    f("one string", &[42,41,40,39,38,37,36,35,34], cards!("Qd Qh Qs Jc Jd Jh Js Tc Td").collect());
    f("string list", &[11,22,33,44,3,14,25,36,47], cards!("4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc",).collect());
    f("one string", &[11,22,33,44,3,14,25,36,47], cards!("4c 7d Th Ks 2c 5d 8h Js Kc").collect());
    f("string list", &[10,11,12,13,14,15,16,17,18,19], cards!("4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c").collect());
    f("one string", &[10,11,12,13,14,15,16,17,18,19], cards!("4d 4c 5s 5h 5d 5c 6s 6h 6d 6c").collect());
    f("string list", &[41,40,39,38,37,36,35,34,33,32], cards!("Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts",).collect());
    f("one string", &[41,40,39,38,37,36,35,34,33,32], cards!("Qh Qs Jc Jd Jh Js Tc Td Th Ts").collect());
    f("string list", &[18,29,40,51,10,21,32,43,2,13], cards!("6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h").collect());
    f("one string", &[18,29,40,51,10,21,32,43,2,13], cards!("6d 9h Qs Ac 4d 7h Ts Qc 2d 5h").collect());
    f("string list", &[11,12,13,14,15,16,17,18,19,20,21], cards!("4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h",).collect());
    f("one string", &[11,12,13,14,15,16,17,18,19,20,21], cards!("4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h").collect());
    f("string list", &[40,39,38,37,36,35,34,33,32,31,30], cards!("Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d").collect());
    f("one string", &[40,39,38,37,36,35,34,33,32,31,30], cards!("Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d").collect());
    f("string list", &[25,36,47,6,17,28,39,50,9,20,31], cards!("8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c",).collect());
    f("one string", &[25,36,47,6,17,28,39,50,9,20,31], cards!("8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c").collect());
    f("string list", &[12,13,14,15,16,17,18,19,20,21,22,23], cards!("5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c").collect());
    f("one string", &[12,13,14,15,16,17,18,19,20,21,22,23], cards!("5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c").collect());
    f("string list", &[39,38,37,36,35,34,33,32,31,30,29,28], cards!("Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s",).collect());
    f("one string", &[39,38,37,36,35,34,33,32,31,30,29,28], cards!("Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s").collect());
    f("string list", &[32,43,2,13,24,35,46,5,16,27,38,49], cards!("Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah").collect());
    f("one string", &[32,43,2,13,24,35,46,5,16,27,38,49], cards!("Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah").collect());
    f("string list", &[13,14,15,16,17,18,19,20,21,22,23,24,25], cards!("5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h",).collect());
    f("one string", &[13,14,15,16,17,18,19,20,21,22,23,24,25], cards!("5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h").collect());
    f("string list", &[38,37,36,35,34,33,32,31,30,29,28,27,26], cards!("Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d").collect());
    f("one string", &[38,37,36,35,34,33,32,31,30,29,28,27,26], cards!("Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d").collect());
    f("string list", &[39,50,9,20,31,42,1,12,23,34,45,4,15], cards!("Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c",).collect());
    f("one string", &[39,50,9,20,31,42,1,12,23,34,45,4,15], cards!("Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c").collect());
    f("string list", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], cards!("5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c").collect());
    f("one string", &[14,15,16,17,18,19,20,21,22,23,24,25,26,27], cards!("5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c").collect());
    f("string list", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], cards!("Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s",).collect());
    f("one string", &[37,36,35,34,33,32,31,30,29,28,27,26,25,24], cards!("Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s").collect());
    f("string list", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], cards!("Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th").collect());
    f("one string", &[46,5,16,27,38,49,8,19,30,41,0,11,22,33], cards!("Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th").collect());
    f("string list", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], cards!("5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h",).collect());
    f("one string", &[15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], cards!("5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h").collect());
    f("string list", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], cards!("Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d").collect());
    f("one string", &[36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], cards!("Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d").collect());
    f("string list", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], cards!("2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac",).collect());
    f("one string", &[1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], cards!("2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac").collect());
    f("string list", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], cards!("6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c").collect());
    f("one string", &[16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], cards!("6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c").collect());
    f("string list", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], cards!("Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s",).collect());
    f("one string", &[35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], cards!("Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s").collect());
    f("string list", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], cards!("4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h").collect());
    f("one string", &[8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], cards!("4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h").collect());
    f("string list", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], cards!("6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th",).collect());
    f("one string", &[17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], cards!("6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th").collect());
    f("string list", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], cards!("Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d").collect());
    f("one string", &[34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], cards!("Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d").collect());
    f("string list", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], cards!("5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc",).collect());
    f("one string", &[15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], cards!("5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc").collect());
    f("string list", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], cards!("6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc").collect());
    f("one string", &[18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], cards!("6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc").collect());
    f("string list", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], cards!("Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s",).collect());
    f("one string", &[33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], cards!("Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s").collect());
    f("string list", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], cards!("7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h").collect());
    f("one string", &[22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], cards!("7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h").collect());
    f("string list", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], cards!("6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh",).collect());
    f("one string", &[19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], cards!("6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh").collect());
    f("string list", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], cards!("Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d").collect());
    f("one string", &[32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], cards!("Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d").collect());
    f("string list", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], cards!("9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c",).collect());
    f("one string", &[29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], cards!("9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c").collect());
    f("string list", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], cards!("7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc").collect());
    f("one string", &[20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], cards!("7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc").collect());
    f("string list", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], cards!("9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s",).collect());
    f("one string", &[31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], cards!("9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s").collect());
    f("string list", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], cards!("Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh").collect());
    f("one string", &[36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], cards!("Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh").collect());
    f("string list", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], cards!("7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh",).collect());
    f("one string", &[21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], cards!("7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh").collect());
    f("string list", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], cards!("9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d").collect());
    f("one string", &[30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], cards!("9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d").collect());
    f("string list", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], cards!("Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c",).collect());
    f("one string", &[43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], cards!("Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c").collect());
    f("string list", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], cards!("7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc").collect());
    f("one string", &[22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], cards!("7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc").collect());
    f("string list", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], cards!("9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s",).collect());
    f("one string", &[29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], cards!("9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s").collect());
    f("string list", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], cards!("Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h").collect());
    f("one string", &[50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], cards!("Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h").collect());
    f("string list", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], cards!("7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh",).collect());
    f("one string", &[23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], cards!("7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh").collect());
    f("string list", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], cards!("9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d").collect());
    f("one string", &[28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], cards!("9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d").collect());
    f("string list", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], cards!("3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc",).collect());
    f("one string", &[5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], cards!("3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc").collect());
    f("string list", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], cards!("8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc").collect());
    f("one string", &[24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], cards!("8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc").collect());
    f("string list", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], cards!("8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s",).collect());
    f("one string", &[27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], cards!("8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s").collect());
    f("string list", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], cards!("5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h").collect());
    f("one string", &[12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], cards!("5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h").collect());
    f("string list", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], cards!("8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah",).collect());
    f("one string", &[25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], cards!("8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah").collect());
    f("string list", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], cards!("8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d").collect());
    f("one string", &[26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], cards!("8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d").collect());
    f("string list", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], cards!("6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c",).collect());
    f("one string", &[19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], cards!("6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c").collect());
    f("string list", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], cards!("8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac").collect());
    f("one string", &[26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], cards!("8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac").collect());
    f("string list", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], cards!("8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s",).collect());
    f("one string", &[25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], cards!("8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s").collect());
    f("string list", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], cards!("8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh").collect());
    f("one string", &[26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], cards!("8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh").collect());
    f("string list", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], cards!("8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h",).collect());
    f("one string", &[27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1], cards!("8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h").collect());
    f("string list", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], cards!("8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad").collect());
    f("one string", &[24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50], cards!("8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad").collect());
    f("string list", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], cards!("Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c",).collect());
    f("one string", &[33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7], cards!("Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c").collect());
    f("string list", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], cards!("9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c").collect());
    f("one string", &[28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3], cards!("9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c").collect());
    f("string list", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], cards!("7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As",).collect());
    f("one string", &[23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48], cards!("7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As").collect());
    f("string list", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], cards!("Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h").collect());
    f("one string", &[40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25], cards!("Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h").collect());
    f("string list", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], cards!("9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h",).collect());
    f("one string", &[29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5], cards!("9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h").collect());
    f("string list", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], cards!("7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd").collect());
    f("one string", &[22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46], cards!("7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd").collect());
    f("string list", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], cards!("Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc",).collect());
    f("one string", &[47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43], cards!("Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc").collect());
    f("string list", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], cards!("9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c").collect());
    f("one string", &[30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7], cards!("9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c").collect());
    f("string list", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], cards!("7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks",).collect());
    f("one string", &[21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44], cards!("7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks").collect());
    f("string list", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], cards!("2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h").collect());
    f("one string", &[2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9], cards!("2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h").collect());
    f("string list", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], cards!("9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h",).collect());
    f("one string", &[31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9], cards!("9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h").collect());
    f("string list", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], cards!("7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd").collect());
    f("one string", &[20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42], cards!("7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd").collect());
    f("string list", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], cards!("4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c",).collect());
    f("one string", &[9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27], cards!("4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c").collect());
    f("string list", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], cards!("Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c").collect());
    f("one string", &[32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11], cards!("Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c").collect());
    f("string list", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], cards!("6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs",).collect());
    f("one string", &[19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40], cards!("6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs").collect());
    f("string list", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], cards!("6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh").collect());
    f("one string", &[16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45], cards!("6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh").collect());
    f("string list", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], cards!("Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h",).collect());
    f("one string", &[33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13], cards!("Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h").collect());
    f("string list", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], cards!("6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd").collect());
    f("one string", &[18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38], cards!("6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd").collect());
    f("string list", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], cards!("7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c",).collect());
    f("one string", &[23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11], cards!("7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c").collect());
    f("string list", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], cards!("Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c").collect());
    f("one string", &[34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15], cards!("Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c").collect());
    f("string list", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], cards!("6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js",).collect());
    f("one string", &[17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36], cards!("6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js").collect());
    f("string list", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], cards!("9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h").collect());
    f("one string", &[30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29], cards!("9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h").collect());
    f("string list", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], cards!("Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h",).collect());
    f("one string", &[35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17], cards!("Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h").collect());
    f("string list", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], cards!("6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td").collect());
    f("one string", &[16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34], cards!("6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td").collect());
    f("string list", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], cards!("Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc",).collect());
    f("one string", &[37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47], cards!("Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc").collect());
    f("string list", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], cards!("Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c").collect());
    f("one string", &[36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19], cards!("Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c").collect());
    f("string list", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], cards!("5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts",).collect());
    f("one string", &[15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32], cards!("5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts").collect());
    f("string list", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], cards!("Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h").collect());
    f("one string", &[44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13], cards!("Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h").collect());
    f("string list", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], cards!("Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h",).collect());
    f("one string", &[37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21], cards!("Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h").collect());
    f("string list", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], cards!("5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d").collect());
    f("one string", &[14,13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30], cards!("5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d").collect());
    f("string list", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], cards!("Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c",).collect());
    f("one string", &[51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31], cards!("Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c").collect());
    f("string list", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], cards!("Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c").collect());
    f("one string", &[38,39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23], cards!("Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c").collect());
    f("string list", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], cards!("5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s",).collect());
    f("one string", &[13,12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28], cards!("5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s").collect());
    f("string list", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], cards!("3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah").collect());
    f("one string", &[6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49], cards!("3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah").collect());
    f("string list", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], cards!("Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h",).collect());
    f("one string", &[39,40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25], cards!("Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h").collect());
    f("string list", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], cards!("5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d").collect());
    f("one string", &[12,11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26], cards!("5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d").collect());
    f("string list", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], cards!("5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c",).collect());
    f("one string", &[13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15], cards!("5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c").collect());
    f("string list", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], cards!("Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c").collect());
    f("one string", &[40,41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27], cards!("Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c").collect());
    f("string list", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], cards!("4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s",).collect());
    f("one string", &[11,10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24], cards!("4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s").collect());
    f("string list", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], cards!("7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th").collect());
    f("one string", &[20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33], cards!("7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th").collect());
    f("string list", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], cards!("Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h",).collect());
    f("one string", &[41,42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29], cards!("Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h").collect());
    f("string list", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], cards!("4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d").collect());
    f("one string", &[10,9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22], cards!("4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d").collect());
    f("string list", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], cards!("8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac",).collect());
    f("one string", &[27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51], cards!("8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac").collect());
    f("string list", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], cards!("Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c").collect());
    f("one string", &[42,43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31], cards!("Qd Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c").collect());
    f("string list", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], cards!("4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s",).collect());
    f("one string", &[9,8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20], cards!("4h 4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s").collect());
    f("string list", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], cards!("Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h").collect());
    f("one string", &[34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17], cards!("Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h").collect());
    f("string list", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], cards!("Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th",).collect());
    f("one string", &[43,44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33], cards!("Qc Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th").collect());
    f("string list", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], cards!("4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d").collect());
    f("one string", &[8,7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18], cards!("4s 3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d").collect());
    f("string list", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], cards!("Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc",).collect());
    f("one string", &[41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35], cards!("Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc").collect());
    f("string list", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], cards!("Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc").collect());
    f("one string", &[44,45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35], cards!("Ks Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc").collect());
    f("string list", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], cards!("3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s",).collect());
    f("one string", &[7,6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16], cards!("3c 3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s").collect());
    f("string list", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], cards!("As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h").collect());
    f("one string", &[48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1], cards!("As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h").collect());
    f("string list", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], cards!("Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh",).collect());
    f("one string", &[45,46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37], cards!("Kh Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh").collect());
    f("string list", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], cards!("3d", "3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d").collect());
    f("one string", &[6,5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14], cards!("3d 3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d").collect());
    f("string list", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], cards!("2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c",).collect());
    f("one string", &[3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19], cards!("2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c").collect());
    f("string list", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], cards!("Kd", "Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc").collect());
    f("one string", &[46,47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39], cards!("Kd Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc").collect());
    f("string list", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], cards!("3h", "3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s",).collect());
    f("one string", &[5,4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12], cards!("3h 3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s").collect());
    f("string list", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], cards!("4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh").collect());
    f("one string", &[10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37], cards!("4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh").collect());
    f("string list", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], cards!("Kc", "As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh",).collect());
    f("one string", &[47,48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41], cards!("Kc As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh").collect());
    f("string list", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], cards!("3s", "2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d").collect());
    f("one string", &[4,3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10], cards!("3s 2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d").collect());
    f("string list", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], cards!("6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c",).collect());
    f("one string", &[17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3], cards!("6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c").collect());
    f("string list", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], cards!("As", "Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc").collect());
    f("one string", &[48,49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43], cards!("As Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc").collect());
    f("string list", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], cards!("2c", "2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s",).collect());
    f("one string", &[3,2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8], cards!("2c 2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s").collect());
    f("string list", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], cards!("8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h").collect());
    f("one string", &[24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21], cards!("8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h").collect());
    f("string list", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], cards!("Ah", "Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh",).collect());
    f("one string", &[49,50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45], cards!("Ah Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh").collect());
    f("string list", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], cards!("2d", "2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d").collect());
    f("one string", &[2,1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6], cards!("2d 2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d").collect());
    f("string list", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], cards!("9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc",).collect());
    f("one string", &[31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39], cards!("9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc").collect());
    f("string list", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], cards!("Ad", "Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc").collect());
    f("one string", &[50,51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47], cards!("Ad Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc").collect());
    f("string list", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], cards!("2h", "2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s",).collect());
    f("one string", &[1,0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4], cards!("2h 2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s").collect());
    f("string list", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], cards!("Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h").collect());
    f("one string", &[38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5], cards!("Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h").collect());
    f("string list", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], cards!("Ac", "2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah",).collect());
    f("one string", &[51,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49], cards!("Ac 2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah").collect());
    f("string list", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], cards!("2s", "Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d").collect());
    f("one string", &[0,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2], cards!("2s Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d").collect());
    f("string list", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], cards!("Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh", "2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c",).collect());
    f("one string", &[45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41,0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23], cards!("Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh 2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c").collect());
    f("string list", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], cards!("2s", "2h", "2d", "2c", "3s", "3h", "3d", "3c", "4s", "4h", "4d", "4c", "5s", "5h", "5d", "5c", "6s", "6h", "6d", "6c", "7s", "7h", "7d", "7c", "8s", "8h", "8d", "8c", "9s", "9h", "9d", "9c", "Ts", "Th", "Td", "Tc", "Js", "Jh", "Jd", "Jc", "Qs", "Qh", "Qd", "Qc", "Ks", "Kh", "Kd", "Kc", "As", "Ah", "Ad", "Ac").collect());
    f("one string", &[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51], cards!("2s 2h 2d 2c 3s 3h 3d 3c 4s 4h 4d 4c 5s 5h 5d 5c 6s 6h 6d 6c 7s 7h 7d 7c 8s 8h 8d 8c 9s 9h 9d 9c Ts Th Td Tc Js Jh Jd Jc Qs Qh Qd Qc Ks Kh Kd Kc As Ah Ad Ac").collect());
    f("string list", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], cards!("Ac", "Ad", "Ah", "As", "Kc", "Kd", "Kh", "Ks", "Qc", "Qd", "Qh", "Qs", "Jc", "Jd", "Jh", "Js", "Tc", "Td", "Th", "Ts", "9c", "9d", "9h", "9s", "8c", "8d", "8h", "8s", "7c", "7d", "7h", "7s", "6c", "6d", "6h", "6s", "5c", "5d", "5h", "5s", "4c", "4d", "4h", "4s", "3c", "3d", "3h", "3s", "2c", "2d", "2h", "2s",).collect());
    f("one string", &[51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12,11,10,9,8,7,6,5,4,3,2,1,0], cards!("Ac Ad Ah As Kc Kd Kh Ks Qc Qd Qh Qs Jc Jd Jh Js Tc Td Th Ts 9c 9d 9h 9s 8c 8d 8h 8s 7c 7d 7h 7s 6c 6d 6h 6s 5c 5d 5h 5s 4c 4d 4h 4s 3c 3d 3h 3s 2c 2d 2h 2s").collect());
    f("string list", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], cards!("2s", "4c", "7d", "Th", "Ks", "2c", "5d", "8h", "Js", "Kc", "3d", "6h", "9s", "Jc", "Ad", "4h", "7s", "9c", "Qd", "2h", "5s", "7c", "Td", "Kh", "3s", "5c", "8d", "Jh", "As", "3c", "6d", "9h", "Qs", "Ac", "4d", "7h", "Ts", "Qc", "2d", "5h", "8s", "Tc", "Kd", "3h", "6s", "8c", "Jd", "Ah", "4s", "6c", "9d", "Qh").collect());
    f("one string", &[0,11,22,33,44,3,14,25,36,47,6,17,28,39,50,9,20,31,42,1,12,23,34,45,4,15,26,37,48,7,18,29,40,51,10,21,32,43,2,13,24,35,46,5,16,27,38,49,8,19,30,41], cards!("2s 4c 7d Th Ks 2c 5d 8h Js Kc 3d 6h 9s Jc Ad 4h 7s 9c Qd 2h 5s 7c Td Kh 3s 5c 8d Jh As 3c 6d 9h Qs Ac 4d 7h Ts Qc 2d 5h 8s Tc Kd 3h 6s 8c Jd Ah 4s 6c 9d Qh").collect());
}

/// String lists of every length whose items are expressions.
pub fn string_list(s: &[&str]) -> Vec<Parsed> {
    match s.len() {
        2 => cards!(s[0], s[1]).collect(),
        3 => cards!(s[0], s[1], s[2],).collect(),
        4 => cards!(s[0], s[1], s[2], s[3]).collect(),
        5 => cards!(s[0], s[1], s[2], s[3], s[4],).collect(),
        6 => cards!(s[0], s[1], s[2], s[3], s[4], s[5]).collect(),
        7 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6],).collect(),
        8 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]).collect(),
        9 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8],).collect(),
        10 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]).collect(),
        11 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10],).collect(),
        12 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]).collect(),
        13 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12],).collect(),
        14 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13]).collect(),
        15 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14],).collect(),
        16 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15]).collect(),
        17 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16],).collect(),
        18 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17]).collect(),
        19 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18],).collect(),
        20 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19]).collect(),
        21 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20],).collect(),
        22 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21]).collect(),
        23 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22],).collect(),
        24 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23]).collect(),
        25 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24],).collect(),
        26 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25]).collect(),
        27 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26],).collect(),
        28 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27]).collect(),
        29 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28],).collect(),
        30 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29]).collect(),
        31 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30],).collect(),
        32 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31]).collect(),
        33 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32],).collect(),
        34 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33]).collect(),
        35 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34],).collect(),
        36 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35]).collect(),
        37 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36],).collect(),
        38 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37]).collect(),
        39 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38],).collect(),
        40 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39]).collect(),
        41 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40],).collect(),
        42 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41]).collect(),
        43 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42],).collect(),
        44 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43]).collect(),
        45 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44],).collect(),
        46 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45]).collect(),
        47 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46],).collect(),
        48 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46], s[47]).collect(),
        49 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46], s[47], s[48],).collect(),
        50 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46], s[47], s[48], s[49]).collect(),
        51 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46], s[47], s[48], s[49], s[50],).collect(),
        52 => cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23], s[24], s[25], s[26], s[27], s[28], s[29], s[30], s[31], s[32], s[33], s[34], s[35], s[36], s[37], s[38], s[39], s[40], s[41], s[42], s[43], s[44], s[45], s[46], s[47], s[48], s[49], s[50], s[51]).collect(),
        n => unreachable!("{n}"),
    }
}

pub fn string_list_owned(s: &[String]) -> Vec<Parsed> {
    match s.len() {
        2 => cards!(s[0].clone(), s[1].clone(),).collect(),
        3 => cards!(s[0].clone(), s[1].clone(), s[2].clone()).collect(),
        4 => cards!(s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone(),).collect(),
        5 => cards!(s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone(), s[4].clone()).collect(),
        6 => cards!(s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone(), s[4].clone(), s[5].clone(),).collect(),
        7 => cards!(s[0].clone(), s[1].clone(), s[2].clone(), s[3].clone(), s[4].clone(), s[5].clone(), s[6].clone()).collect(),
        n => unreachable!("{n}"),
    }
}

pub fn join(s: &[&[Card]], trailing: bool) -> Box<[Card]> {
    match (s.len(), trailing) {
        (2, false) => poker::box_cards!(s[0], s[1]),
        (2, true) => poker::box_cards!(s[0], s[1],),
        (3, false) => poker::box_cards!(s[0], s[1], s[2]),
        (3, true) => poker::box_cards!(s[0], s[1], s[2],),
        (4, false) => poker::box_cards!(s[0], s[1], s[2], s[3]),
        (4, true) => poker::box_cards!(s[0], s[1], s[2], s[3],),
        (5, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4]),
        (5, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4],),
        (6, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5]),
        (6, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5],),
        (7, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6]),
        (7, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6],),
        (8, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]),
        (8, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7],),
        (9, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]),
        (9, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8],),
        (10, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9]),
        (10, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9],),
        (11, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10]),
        (11, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10],),
        (12, false) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11]),
        (12, true) => poker::box_cards!(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11],),
        n => unreachable!("{n:?}"),
    }
}
