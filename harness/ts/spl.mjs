// The part of @solana/spl-token that needs no network.
import { PublicKey, SystemProgram, TransactionInstruction } from './web3.mjs';

export const TOKEN_PROGRAM_ID = new PublicKey('TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA');
export const ASSOCIATED_TOKEN_PROGRAM_ID = new PublicKey('ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL');
export const NATIVE_MINT = new PublicKey('So11111111111111111111111111111111111111112');

export function getAssociatedTokenAddressSync(
  mint,
  owner,
  allowOwnerOffCurve = false,
  programId = TOKEN_PROGRAM_ID,
  associatedTokenProgramId = ASSOCIATED_TOKEN_PROGRAM_ID,
) {
  if (!allowOwnerOffCurve && !PublicKey.isOnCurve(owner.toBuffer())) throw new Error('TokenOwnerOffCurveError');
  return PublicKey.findProgramAddressSync([owner.toBuffer(), programId.toBuffer(), mint.toBuffer()], associatedTokenProgramId)[0];
}
export async function getAssociatedTokenAddress(...args) {
  return getAssociatedTokenAddressSync(...args);
}

const w = (pubkey, isSigner = false) => ({ pubkey, isSigner, isWritable: true });
const r = (pubkey, isSigner = false) => ({ pubkey, isSigner, isWritable: false });
const token = (keys, data) => new TransactionInstruction({ keys, programId: TOKEN_PROGRAM_ID, data: Buffer.from(data) });

const ata = (tag) => (payer, associatedToken, owner, mint, programId = TOKEN_PROGRAM_ID, at = ASSOCIATED_TOKEN_PROGRAM_ID) =>
  new TransactionInstruction({
    keys: [w(payer, true), w(associatedToken), r(owner), r(mint), r(SystemProgram.programId), r(programId)],
    programId: at,
    data: Buffer.from(tag),
  });
export const createAssociatedTokenAccountInstruction = ata([]);
export const createAssociatedTokenAccountIdempotentInstruction = ata([1]);
export const createInitializeAccount3Instruction = (account, mint, owner) =>
  token([w(account), r(mint)], [18, ...owner.toBuffer()]);
export const createCloseAccountInstruction = (account, destination, authority) =>
  token([w(account), w(destination), r(authority, true)], [9]);
export const createSyncNativeInstruction = (account) => token([w(account)], [17]);
