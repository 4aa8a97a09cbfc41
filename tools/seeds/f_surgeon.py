"""P28: transplanting tokenizers"""
SURGEON = '''
from demo_common import *
from click.testing import CliRunner
EMB, HEAD = "model.embed_tokens.weight", "lm_head.weight"

def rows(p):
    def v(name, shape):
        if name in (EMB, HEAD):
            return torch.tensor(p, dtype=torch.float32) * (1 if name == EMB else 10)
        return torch.ones(shape)
    return v

def surgeon(o_tokens, o_rows, d_tokens, d_rows, *args):
    from mergekit.scripts import tokensurgeon
    o = llama("orig", layers=1, hidden=len(o_rows[0]), vocab=len(o_rows), values=rows(o_rows))
    d = llama("donor", layers=1, hidden=len(d_rows[0]), vocab=len(d_rows), values=rows(d_rows))
    tokenizer(o, o_tokens)
    tokenizer(d, d_tokens)
    r = CliRunner().invoke(tokensurgeon.main, [o, d, ROOT + "/out", "--quiet"] + list(args))
    check(r.exception is None, repr(r.exception))
    return read(ROOT + "/out")
'''
bug("P28-prefix-shortest", "P28",
    "--prefix-match with two known prefixes of a donor token",
    "the shortest known prefix is used instead of the longest",
    [("mergekit/tokenizer/normalization.py", "    for i in range(len(token) - 1, 0, -1):\n", "    for i in range(1, len(token)):\n")],
    SURGEON + '''
got = surgeon(["u", "a", "ab"], [[1., 1.], [2., 0.], [0., 3.]], ["u", "abc"], [[1., 0.], [0., 1.]], "-a", "zero", "--prefix-match", "yes")
check(got[EMB][1].tolist() == [0., 3.], got[EMB])
''')
bug("P28-byte-lower", "P28",
    "--byte-match with a byte token whose hexadecimal name has letters (<0x4A>)",
    "a character is looked up as a byte token in lower case",
    [("mergekit/scripts/tokensurgeon.py", '        byte_tok = f"<0x{ord(token):02X}>"', '        byte_tok = f"<0x{ord(token):02x}>"')],
    SURGEON + '''
got = surgeon(["u", "<0x4A>"], [[1., 1.], [2., 5.]], ["u", "J"], [[1., 0.], [0., 1.]], "-a", "zero", "--byte-match", "yes")
check(got[EMB][1].tolist() == [2., 5.], got[EMB])
''')
bug("P28-shared-order", "P28",
    "a fitting method (omp, interpolation) and vocabularies that order their shared tokens differently",
    "the donor's rows of the shared tokens are paired with the original's rows in another order",
    [("mergekit/scripts/tokensurgeon.py", "            torch.tensor([orig_vocab[t] for t in shared_vocab])\n", "            torch.tensor(sorted(orig_vocab[t] for t in shared_vocab))\n")],
    SURGEON + '''
got = surgeon(["u", "a", "b"], [[7., 7.], [2., 0.], [0., 3.]], ["u", "b", "a", "n"], [[1., 1.], [0., 2.], [3., 0.], [3., 0.]], "-a", "omp", "-k", "1")
check(torch.allclose(got[EMB][3], torch.tensor([2., 0.])), got[EMB])
''')
bug("P28-batch-first", "P28",
    "more new tokens than --batch-size",
    "every batch but the first writes its rows to the tokens of the first",
    [("mergekit/scripts/tokensurgeon.py", """            for ne_idx, token in enumerate(
                new_tokens[base_idx : base_idx + batch_size]
            ):
                res[donor_vocab[token]] = new_embeds[ne_idx]
""", """            for ne_idx in range(new_embeds.shape[0]):
                res[donor_vocab[new_tokens[ne_idx]]] = new_embeds[ne_idx]
""")],
    SURGEON + '''
got = surgeon(["u", "a"], [[1., 1.], [3., 5.]], ["u", "n1", "n2", "n3"], [[1., 0.]] * 4, "-a", "mean", "--batch-size", "2")
check(all(got[EMB][i].tolist() == [2., 3.] for i in (1, 2, 3)), got[EMB])
''')
bug("P28-role-text", "P28",
    "a special role that two models give to differently spelled tokens (<s>, <|begin|>)",
    "special tokens are matched by their text instead of their role",
    [("mergekit/tokenizer/normalization.py", "            return (TokenMarker.SPECIAL, special_token_type)\n", "            return (TokenMarker.SPECIAL, token)\n")],
    SURGEON + '''
got = surgeon({"<u>": 0, "a": 1}, [[4., 1.], [3., 5.]], {"[UNK]": 0, "a": 1}, [[1., 0.], [0., 1.]], "-a", "zero")
check(got[EMB][0].tolist() == [4., 1.], got[EMB])
''')
bug("P28-scale-all", "P28",
    "--new-vocab-scale with shared tokens",
    "the scale is applied once more per batch to all rows already filled in",
    [("mergekit/scripts/tokensurgeon.py", """            if options.new_vocab_scale:
                new_embeds *= options.new_vocab_scale
""", """            if options.new_vocab_scale:
                new_embeds *= options.new_vocab_scale
                res[: len(new_embeds)] *= options.new_vocab_scale if base_idx else 1
""")],
    SURGEON + '''
got = surgeon(["u", "a"], [[1., 1.], [3., 5.]], ["u", "n1", "n2", "n3"], [[1., 0.]] * 4, "-a", "mean", "--batch-size", "2", "--new-vocab-scale", "2")
check(got[EMB][0].tolist() == [1., 1.] and got[EMB][3].tolist() == [4., 6.], got[EMB])
''')
bug("P28-cosine-far", "P28",
    "--cosine-similarity interpolation",
    "cosine neighbours are weighted by their distance, so the least similar counts most",
    [("mergekit/tokensurgeon/common_interpolation.py", "            weights = 1 - distances\n", "            weights = distances\n")],
    SURGEON + '''
got = surgeon(["u", "a"], [[10., 0.], [0., 10.]], ["u", "a", "n"], [[1., 0.], [3., 4.], [3., 4.]], "-a", "common_interpolation", "-k", "2", "-c")
check(float(got[EMB][2][1]) > float(got[EMB][2][0]), got[EMB])
''')
bug("P28-omp-sign", "P28",
    "omp with k of two or more and selected tokens at an obtuse angle",
    "a selected token's component along the ones before is taken to be positive",
    [("mergekit/tokensurgeon/omp.py", """            r[:, :t, t] = projections
            r[:, t, t] = norm
""", """            r[:, :t, t] = projections.abs()
            r[:, t, t] = norm
""")],
    SURGEON + '''
got = surgeon(["u", "a"], [[10., 0.], [0., 10.]], ["u", "a", "n"], [[1., 0.], [-1., 1.], [1., 2.]], "-a", "omp", "-k", "2")
check(torch.allclose(got[EMB][2], torch.tensor([30., 20.]), atol=1e-3), got[EMB])
''')
bug("P28-subword-repeated", "P28",
    "--approximation-method subword with mean or sum and a text of two or more equal pieces",
    "a piece that occurs twice counts once",
    [("mergekit/tokensurgeon/subword.py", "            for id in token_ids:\n                res[idx] += orig_embed[id]\n", "            for id in set(token_ids):\n                res[idx] += orig_embed[id]\n")],
    SURGEON + '''
from tokenizers import Tokenizer
from tokenizers.models import BPE
from transformers import PreTrainedTokenizerFast
def bpe(path, tokens, *a):
    PreTrainedTokenizerFast(tokenizer_object=Tokenizer(BPE(vocab={t: i for i, t in enumerate(tokens)}, merges=[], unk_token=tokens[0])), unk_token=tokens[0]).save_pretrained(path)
tokenizer = bpe
got = surgeon(["u", "a", "b"], [[1., 1.], [2., 0.], [0., 4.]], ["u", "aab"], [[1., 0.], [0., 1.]], "-a", "subword", "-s", "sum")
check(got[EMB][1].tolist() == [4., 4.], got[EMB])
''')
