// Package tracing is a minimal offline stand-in for go-ethereum/core/tracing.
package tracing

// BalanceChangeReason tells why a balance changes.
type BalanceChangeReason byte

const (
	BalanceChangeUnspecified            BalanceChangeReason = 0
	BalanceIncreaseRewardMineUncle      BalanceChangeReason = 1
	BalanceIncreaseRewardMineBlock      BalanceChangeReason = 2
	BalanceIncreaseWithdrawal           BalanceChangeReason = 3
	BalanceIncreaseGenesisBalance       BalanceChangeReason = 4
	BalanceIncreaseRewardTransactionFee BalanceChangeReason = 5
	BalanceDecreaseGasBuy               BalanceChangeReason = 6
	BalanceIncreaseGasReturn            BalanceChangeReason = 7
	BalanceIncreaseDaoContract          BalanceChangeReason = 8
	BalanceDecreaseDaoAccount           BalanceChangeReason = 9
	BalanceChangeTransfer               BalanceChangeReason = 10
	BalanceChangeTouchAccount           BalanceChangeReason = 11
	BalanceIncreaseSelfdestruct         BalanceChangeReason = 12
	BalanceDecreaseSelfdestruct         BalanceChangeReason = 13
	BalanceDecreaseSelfdestructBurn     BalanceChangeReason = 14
)
